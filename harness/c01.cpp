// C01: balance, nonce, code, storage and account proofs against generated states.
#include "world.h"
using namespace world;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
struct Case { const Spec* sp; Block b; HeaderProof hp; Sync sy; int m; Bytes addr; std::vector<Bytes> keys; int bk; std::string block; };
static const char* METHODS[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"};
// what the state commits to
static const Account* acc(const State& s, const Bytes& a) { auto it = s.acc.find(a); return it == s.acc.end() ? nullptr : &it->second; }
static Bytes slot_value(const Account* a, const Bytes& k) { if (!a) return Bytes(32, 0); auto it = a->storage.find(k); return it == a->storage.end() ? Bytes(32, 0) : ref::lpad(it->second, 32); }
static Bytes truth(const State& s, int m, const Bytes& addr, const std::vector<Bytes>& keys) {
  const Account* a = acc(s, addr);
  switch (m) {
    case 0: return a ? ref::rev(ref::lpad(a->balance, 32)) : Bytes(32, 0);
    case 1: return U(a ? a->nonce : 0, 32);
    case 2: return a ? a->code : Bytes();
    case 3: return slot_value(a, keys.empty() ? Bytes(32, 0) : keys[0]);
    default: { std::vector<Bytes> sl; for (auto& k : keys) sl.push_back(cont({F(k), F(slot_value(a, k)), D(dlist(a ? a->trie().proof(ref::keccak(k)) : std::vector<Bytes>()))}));
      return cont({F(a ? ref::rev(ref::lpad(a->balance, 32)) : Bytes(32, 0)), F(ref::keccak(a ? a->code : Bytes())), F(U(a ? a->nonce : 0, 32)), F(a ? a->trie().root() : ref::EMPTY_ROOT), D(dlist(s.trie().proof(ref::keccak(addr)))), D(dlist(sl))}); }
  }
}
static std::string args(int m, const Bytes& addr, const std::vector<Bytes>& keys, const std::string& block) {
  std::string s = "[" + hexs(addr); if (m == 3) s += "," + hexs(keys[0]); if (m == 4) { s += ",["; for (size_t i = 0; i < keys.size(); i++) s += (i ? "," : "") + hexs(keys[i]); s += "]"; } return s + "," + block + "]";
}
static Bytes pick_addr(Gen& g, const State& s) { if (s.acc.empty() || g.chance(1, 4)) { if (s.acc.size() && g.coin()) { Bytes a = s.acc.begin()->first; a[g.below(20)] ^= (uint8_t) g.range(1, 255); return a; } return txg::gaddr(g); } auto it = s.acc.begin(); std::advance(it, g.below(s.acc.size())); return it->first; }
static Bytes pick_key(Gen& g, const Account* a) { if (a && a->storage.size() && !g.chance(1, 3)) { auto it = a->storage.begin(); std::advance(it, g.below(a->storage.size())); return it->first; } return g.coin() ? ref::lpad(ref::be(g.below(8)), 32) : g.rnd(32); }
static Case setup(Gen& g) {
  Case c; c.sp = &g.pick(specs()); BlockOpt o; o.max_txs = 0; o.accounts = g.coin() ? 6 : 40; o.slots = g.coin() ? 4 : 40; c.b = gen_block(g, *c.sp, o); c.sy.sp = c.sp; c.sy.comm = comm; c.hp = c.sy.sign(g, c.b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512);
  uint64_t p = period_of(*c.sp, (c.hp.kind ? c.hp.top.slot : c.b.h.slot) + 1); install_storage(); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}});
  c.m = (int) g.below(5); c.addr = pick_addr(g, c.b.st); size_t n = c.m == 3 ? 1 : c.m == 4 ? g.below(5) : 0; for (size_t i = 0; i < n; i++) c.keys.push_back(pick_key(g, acc(c.b.st, c.addr)));
  c.bk = (int) g.below(3); c.block = c.bk == 0 ? g.pick(std::vector<std::string>{"\"latest\"", "\"safe\"", "\"finalized\""}) : c.bk == 1 ? hexs(c.b.p.hash) : hexn(c.b.p.number);
  g.note("%s chain %llu accounts %zu exists %d slots %zu keys %zu block %s", METHODS[c.m], (unsigned long long) c.sp->id, c.b.st.acc.size(), acc(c.b.st, c.addr) != nullptr, acc(c.b.st, c.addr) ? acc(c.b.st, c.addr)->storage.size() : 0, c.keys.size(), c.block.c_str()); return c;
}
static Bytes data_union(int m, const Bytes& code) { return m == 2 ? uni(2, code) : Bytes{0}; }
static Bytes build(const Case& c, const State& st, const Bytes& addr, const std::vector<Bytes>& keys) { return request(data_union(c.m, acc(st, addr) ? acc(st, addr)->code : Bytes()), uni(1, account_proof(st, addr, keys, state_proof(c.b, c.hp, c.bk)))); }
static const int TYPES[] = {SSZ_TYPE_UINT, SSZ_TYPE_UINT, SSZ_TYPE_LIST, SSZ_TYPE_VECTOR, SSZ_TYPE_CONTAINER};
static void expect_honest(Gen& g, const Case& c, const Bytes& req) {
  Res r = verify(req, METHODS[c.m], args(c.m, c.addr, c.keys, c.block), c.sp->id); CHECK(r.accepted(), "honest proof rejected: %s", r.err.c_str());
  Bytes t = truth(c.b.st, c.m, c.addr, c.keys); CHECK(r.type == TYPES[c.m], "result of type %d (%s)", r.type, r.name.c_str()); CHECK(r.data == t, "reported %s instead of %s", pbt::hex(r.data).c_str(), pbt::hex(t).c_str());
}
static void labels(Gen& g, const Case& c) { g.label(METHODS[c.m]); const Account* a = acc(c.b.st, c.addr); g.label(a ? "existing" : "missing account"); for (auto& k : c.keys) g.label(a && a->storage.count(k) ? "slot set" : "slot empty"); g.label(c.bk == 0 ? "tag" : c.bk == 1 ? "by hash" : "by number"); }
PROP(honest, 700) { Case c = setup(g); expect_honest(g, c, build(c, c.b.st, c.addr, c.keys)); labels(g, c); g.nontrivial(c.b.h.body.data(), 32); }
// altered proofs: rejected, or exactly the committed answer for the requested arguments
PROP(altered, 900) {
  Case c = setup(g); Bytes req = build(c, c.b.st, c.addr, c.keys); expect_honest(g, c, req); labels(g, c); g.nontrivial(c.b.h.body.data(), 32);
  for (int round = 0; round < 5; round++) {
    Bytes r2 = req; std::string a = args(c.m, c.addr, c.keys, c.block), method = METHODS[c.m]; Bytes addr = c.addr; std::vector<Bytes> keys = c.keys; std::string what; bool must_reject = false; int m = c.m;
    switch (g.below(13)) {
      case 0: case 1: { what = "byte altered"; size_t i = g.below(r2.size()); r2[i] ^= (uint8_t) g.range(1, 255); break; }
      case 2: { what = "another state"; State s2 = c.b.st; Account& x = s2.acc[c.addr]; switch (g.below(4)) { case 0: x.nonce++; break; case 1: x.balance = g.rnd(5); x.balance[0] |= 1; break; case 2: x.code.push_back(1); break; default: for (auto& k : c.keys) x.storage[k] = Bytes{(uint8_t) g.range(1, 255), 7}; } r2 = build(c, s2, c.addr, c.keys); break; }
      case 3: { what = "proof of another account"; Bytes o = pick_addr(g, c.b.st); r2 = build(c, c.b.st, o, c.keys); break; }
      case 4: { what = "proof of another account under this address"; Bytes o = pick_addr(g, c.b.st); Bytes p = account_proof(c.b.st, o, c.keys, state_proof(c.b, c.hp, c.bk)); memcpy(p.data() + 4, c.addr.data(), 20); r2 = request(data_union(c.m, acc(c.b.st, o) ? acc(c.b.st, o)->code : Bytes()), uni(1, p)); break; }
      case 5: { what = "requested address changed"; addr = pick_addr(g, c.b.st); if (addr == c.addr) addr[3] ^= 1; a = args(c.m, addr, keys, c.block); break; }
      case 6: { what = "requested keys changed"; if (keys.empty()) { keys.push_back(g.rnd(32)); if (c.m != 4) break; } else switch (g.below(c.m == 4 ? 4 : 2)) { case 0: keys[g.below(keys.size())] = pick_key(g, acc(c.b.st, c.addr)); break; case 1: keys[g.below(keys.size())][31] ^= 1; break; case 2: keys.pop_back(); break; default: keys.push_back(g.rnd(32)); } a = args(c.m, addr, keys, c.block); break; }
      case 7: { what = "other storage keys in the proof"; std::vector<Bytes> k2 = keys; switch (g.below(5)) { case 0: k2.clear(); break; case 1: k2.push_back(pick_key(g, acc(c.b.st, c.addr))); break; case 2: k2.insert(k2.begin(), pick_key(g, acc(c.b.st, c.addr))); break; case 3: if (k2.size() > 1) std::swap(k2[0], k2[1]); break; default: if (k2.size()) k2[0] = pick_key(g, acc(c.b.st, c.addr)); } r2 = build(c, c.b.st, c.addr, k2); break; }
      case 8: { what = "storage proof altered"; const Account* x = acc(c.b.st, c.addr); std::vector<Bytes> l; for (auto& k : keys) { auto p = x ? x->trie().proof(ref::keccak(k)) : std::vector<Bytes>(); switch (g.below(4)) { case 0: p.clear(); break; case 1: if (p.size()) p.pop_back(); break; case 2: p.push_back(p.size() ? p.back() : g.rnd(33)); break; default: if (p.size()) p.erase(p.begin()); } l.push_back(cont({F(k), D(dlist(p))})); }
        r2 = request(data_union(c.m, x ? x->code : Bytes()), uni(1, cont({D(dlist(c.b.st.trie().proof(ref::keccak(c.addr)))), F(c.addr), D(dlist(l)), D(state_proof(c.b, c.hp, c.bk))}))); break; }
      case 9: { what = "account proof altered"; auto p = c.b.st.trie().proof(ref::keccak(c.addr)); switch (g.below(4)) { case 0: p.clear(); break; case 1: if (p.size()) p.pop_back(); break; case 2: p.push_back(p.size() ? p.back() : g.rnd(33)); break; default: if (p.size()) p.erase(p.begin()); }
        r2 = request(data_union(c.m, g.coin() || !acc(c.b.st, c.addr) ? Bytes() : acc(c.b.st, c.addr)->code), uni(1, cont({D(dlist(p)), F(c.addr), D(storage_proof_list(acc(c.b.st, c.addr), keys)), D(state_proof(c.b, c.hp, c.bk))}))); break; }
      case 10: { what = "claimed result"; Bytes d; switch (g.below(4)) { case 0: d = uni(3, g.rnd(32)); break; case 1: d = uni(1, g.rnd(32)); break; case 2: d = uni(2, g.blob(40)); break; default: d = uni(0); } r2 = request(d, uni(1, account_proof(c.b.st, c.addr, c.keys, state_proof(c.b, c.hp, c.bk)))); break; }
      case 11: { what = "another block requested"; must_reject = true; std::string bl = g.coin() ? other_num(g, c.b.p.number) : [&] { Bytes h = c.b.p.hash; h[g.below(32)] ^= 1 << g.below(8); return hexs(h); }(); a = args(c.m, addr, keys, bl); if (g.coin()) { Case c2 = c; c2.bk = bl.size() == 68 ? 1 : 2; r2 = build(c2, c.b.st, c.addr, c.keys); if (g.coin()) { Block b2 = c.b; if (c2.bk == 1) b2.p.hash = ref::unhex(bl.substr(3, 64)); else b2.p.number ^= 1; r2 = request(data_union(c.m, acc(c.b.st, addr) ? acc(c.b.st, addr)->code : Bytes()), uni(1, account_proof(c.b.st, addr, keys, state_proof(b2, c.hp, c2.bk)))); } } break; }
      default: { what = "arguments missing"; must_reject = true; switch (g.below(5)) { case 0: a = "[]"; break; case 1: a = "[null,\"latest\"]"; break; case 2: a = "[{},\"latest\"]"; break; case 3: a = "null"; break; default: a = "[\"0x\"," + c.block + "]"; } if (m == 2 && false) must_reject = false; }
    }
    g.note("%s", what.c_str()); Res r = verify(r2, method, a, c.sp->id);
    if (r.accepted()) { CHECK(!must_reject, "accepted with %s: %s", what.c_str(), a.c_str()); Bytes t = truth(c.b.st, m, addr, keys); CHECK(r.type == TYPES[m] && r.data == t, "%s accepted with %s: reported %s instead of %s", METHODS[m], what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(t).c_str()); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
// an attacker controls every trie node but not the signed state root: crafted accounts and slot values
PROP(crafted, 300) {
  Case c = setup(g); Bytes nodes; std::vector<Bytes> f; for (int i = 0; i < 4; i++) f.push_back(g.chance(1, 4) ? ref::rlp_list({ref::rlp(g.rnd(3))}) : ref::rlp(g.rnd(g.pick(std::vector<uint64_t>{0, 1, 8, 31, 32, 33, 40, 200})))); if (g.chance(1, 6)) f.pop_back(); if (g.chance(1, 6)) f.push_back(ref::rlp(g.rnd(2)));
  std::vector<Bytes> sl; ref::Trie stt; for (auto& k : c.keys) { Bytes v = ref::rlp(g.rnd(g.pick(std::vector<uint64_t>{0, 1, 32, 33, 64, 300}))); if (g.chance(1, 4)) v = ref::rlp_list({v}); stt.put(ref::keccak(k), v); } if (!g.chance(1, 3)) f.size() > 2 ? (void) (f[2] = ref::rlp(stt.root())) : (void) 0;
  for (auto& k : c.keys) sl.push_back(cont({F(k), D(dlist(stt.proof(ref::keccak(k))))})); ref::Trie t; Bytes val = ref::rlp_list(f); if (g.chance(1, 8)) val = g.rnd(g.range(1, 40)); t.put(ref::keccak(c.addr), val); for (size_t n = g.below(4); n--;) t.put(ref::keccak(g.rnd(20)), ref::rlp_list({ref::rlp(g.rnd(40))}));
  bool sign = g.coin(); Block b = c.b; HeaderProof hp = c.hp; // signed: a state root with contents no client would produce, only memory safety is checked
  if (sign) { b.p.state = t.root(); b.body = body_tree(g, b.p, fork_of(*c.sp, b.h.slot) >= 5, {}); b.h.body = b.body->h; hp = c.sy.sign(g, b.h, 0, 512); uint64_t p = period_of(*c.sp, b.h.slot + 1); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}}); }
  std::string a = args(c.m, c.addr, c.keys, c.bk == 1 ? hexs(b.p.hash) : c.block); Bytes req = request(data_union(c.m, Bytes{1, 2, 3}), uni(1, cont({D(dlist(t.proof(ref::keccak(c.addr)))), F(c.addr), D(dlist(sl)), D(state_proof(b, hp, c.bk))})));
  Res r = verify(req, METHODS[c.m], a, c.sp->id); if (!sign) CHECK(!r.accepted(), "state root without signature accepted"); g.label(r.accepted() ? "accepted" : "rejected"); g.nontrivial(t.root().data(), 32);
}
