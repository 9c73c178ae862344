#include "world.h"
#include "blst.h"
#include <gmp.h>
namespace world {
using namespace ref;
Bytes join(const std::vector<Bytes>& l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
Bytes cont(const std::vector<Fld>& f) { size_t fix = 0; for (auto& x : f) fix += x.dyn ? 4 : x.b.size(); Bytes a, d; for (auto& x : f) if (x.dyn) { Bytes o = le(fix + d.size(), 4); a.insert(a.end(), o.begin(), o.end()); d.insert(d.end(), x.b.begin(), x.b.end()); } else a.insert(a.end(), x.b.begin(), x.b.end()); a.insert(a.end(), d.begin(), d.end()); return a; }
Bytes dlist(const std::vector<Bytes>& e) { std::vector<Fld> f; for (auto& x : e) f.push_back(D(x)); return cont(f); }
const std::vector<Spec>& specs() {
  static std::vector<Spec> s = {
    {1, false, 5, 8, {74240, 144896, 194048, 269568, 364032, 411392}, unhex("4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95"), 3682},
    {11155111, false, 5, 8, {50, 100, 56832, 132608, 222464, 272640}, unhex("d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078"), 3682},
    {100, true, 4, 9, {512, 385536, 648704, 889856, 1337856}, unhex("f5dcb5564e829aab27264b9becd5dfaa017085611224cb3036f573368dbb9d47"), 1500},
    {10200, true, 4, 9, {90, 180, 244224, 516608, 948224}, unhex("9d642dac73058f9f39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e"), 1500}};
  static bool init = false; if (!init) { init = true; s[3].genesis = unhex("9d642dac73058fbf39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e"); }
  return s;
}
unsigned fork_of(const Spec& s, uint64_t slot) { uint64_t e = slot >> s.se; unsigned i = 0; while (i < s.forks.size() && e >= s.forks[i]) i++; return i; }
Bytes domain(const Spec& s, uint64_t epoch) {
  unsigned f = fork_of(s, epoch << s.se); Bytes v(4, 0);
  if (s.id == 1) v = {(uint8_t) f, 0, 0, 0}; else if (s.id == 11155111) v = {0x90, 0, 0, (uint8_t) (0x6f + f)}; else if (s.id == 100) v = {(uint8_t) f, 0, 0, 0x64}; else v = {(uint8_t) f, 0, 0, 0x6f};
  Bytes r = sha2(rpad(v, 32), s.genesis); Bytes d{7, 0, 0, 0}; d.insert(d.end(), r.begin(), r.begin() + 28); return d;
}
Bytes signing_root(const Bytes& h, const Bytes& d) { return sha2(h, d); }
// ---- committees
static const char* R_HEX = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
const Committee& committee(unsigned i) {
  static std::map<unsigned, Committee> cache; auto it = cache.find(i); if (it != cache.end()) return it->second;
  pbt::HeapPause hp; Committee& c = cache[i]; c.sk0 = sha256(S2B("committee" + std::to_string(i))); c.sk0[0] &= 0x3f;
  Bytes le32 = rev(c.sk0); blst_p1 p; blst_p1_mult(&p, blst_p1_generator(), le32.data(), 255); c.deser.resize(512 * sizeof(blst_p1_affine));
  blst_p1 sum; for (int k = 0; k < 512; k++) { blst_p1_affine a; blst_p1_to_affine(&a, &p); memcpy(c.deser.data() + k * sizeof a, &a, sizeof a); Bytes z(48); blst_p1_affine_compress(z.data(), &a); c.pk.push_back(z); c.keys.insert(c.keys.end(), z.begin(), z.end()); if (!k) sum = p; else blst_p1_add_or_double(&sum, &sum, &p); blst_p1 n; blst_p1_add_or_double_affine(&n, &p, blst_p1_affine_generator()); p = n; }
  blst_p1_affine s; blst_p1_to_affine(&s, &sum); c.agg.resize(48); blst_p1_affine_compress(c.agg.data(), &s); return c;
}
Bytes bls_sign(const Committee& c, const Bytes& bits, const Bytes& msg) {
  uint64_t n = 0, si = 0; for (int i = 0; i < 512; i++) if (bits[i / 8] >> (i % 8) & 1) n++, si += i;
  if (!n) { Bytes r(96, 0); r[0] = 0xc0; return r; }
  mpz_t r, s, t; mpz_init(r); mpz_init(s); mpz_init(t); mpz_set_str(r, R_HEX, 16); mpz_import(s, 32, 1, 1, 1, 0, c.sk0.data()); mpz_mul_ui(s, s, n); mpz_add_ui(s, s, si); mpz_mod(s, s, r);
  Bytes k(32, 0); size_t cnt = 0; mpz_export(k.data(), &cnt, -1, 1, -1, 0, s); mpz_clear(r); mpz_clear(s); mpz_clear(t);
  static const char dst[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"; blst_p2 h, o; blst_hash_to_g2(&h, msg.data(), msg.size(), (const byte*) dst, sizeof(dst) - 1, NULL, 0); blst_p2_mult(&o, &h, k.data(), 255);
  blst_p2_affine a; blst_p2_to_affine(&a, &o); Bytes z(96); blst_p2_affine_compress(z.data(), &a); return z;
}
Bytes all_bits(unsigned n) { Bytes b(64, 0); for (unsigned i = 0; i < n; i++) b[i / 8] |= 1 << (i % 8); return b; }
Bytes gen_bits(Gen& g, unsigned n) { Bytes b = all_bits(n); if (n && n < 512) { unsigned sh = (unsigned) g.below(512); Bytes r(64, 0); for (unsigned i = 0; i < 512; i++) if (b[i / 8] >> (i % 8) & 1) { unsigned j = (i * 5 + sh) % 512; r[j / 8] |= 1 << (j % 8); } return r; } return b; }
// ---- headers
NP Header::tree() const { return merkleize({uint_leaf(slot), uint_leaf(proposer), leaf(parent), leaf(state), leaf(body)}, 5); }
Bytes Header::root() const { return tree()->h; }
Bytes Header::enc() const { return cat({U(slot, 8), U(proposer, 8), parent, state, body}); }
Bytes HeaderProof::enc() const {
  if (kind == 0) return uni(0, cat({bits, sig}));
  if (kind == 1) return uni(1, cont({D(join(proof)), F(top.enc()), F(U(gindex, 8)), F(bits), F(sig)}));
  Bytes hs; for (auto& m : mids) hs = cat({hs, U(m.slot, 8), U(m.proposer, 8), m.state, m.body}); return uni(2, cont({D(hs), F(top.enc()), F(bits), F(sig)}));
}
uint64_t historic_gindex(const Spec& s, uint64_t signed_slot, uint64_t summary, uint64_t index) { uint64_t f = fork_of(s, signed_slot) >= 5 ? 91 : 59; return ((((f << 1) << 24) | summary) << 1 << 13) | index; }
HeaderProof Sync::sign(Gen& g, const Header& h, int kind, unsigned n) const {
  HeaderProof p; p.kind = kind; Header t = h;
  if (kind == 1) { t.slot = h.slot + 8192 + g.below(8192); t.proposer = g.u64(); t.parent = g.rnd(32); t.body = g.rnd(32); p.gindex = historic_gindex(*sp, t.slot, g.below(2000), h.slot % 8192); Bytes c = h.root(); for (uint64_t i = p.gindex; i > 1; i >>= 1) { Bytes s = g.rnd(32); p.proof.push_back(s); c = i & 1 ? sha2(s, c) : sha2(c, s); } t.state = c; p.top = t; }
  if (kind == 2) { Header prev = h; size_t k = g.size(5); for (size_t i = 0; i <= k; i++) { Header m; m.slot = prev.slot + 1 + g.below(2); m.proposer = g.u64(); m.parent = prev.root(); m.state = g.rnd(32); m.body = g.rnd(32); if (i < k) p.mids.push_back(m); prev = m; } t = prev; p.top = t; }
  p.bits = gen_bits(g, n); p.sig = bls_sign(committee(comm(period_of(*sp, t.slot + 1))), p.bits, signing_root(t.root(), domain(*sp, t.slot >> sp->se))); return p;
}
// ---- execution layer
ref::Trie Account::trie() const { Trie t; for (auto& e : storage) t.put(keccak(e.first), ref::rlp(e.second)); return t; }
Bytes Account::rlp() const { return rlp_list({ref::rlp(nonce), ref::rlp(balance), ref::rlp(trie().root()), ref::rlp(keccak(code))}); }
ref::Trie State::trie() const { Trie t; for (auto& e : acc) t.put(keccak(e.first), e.second.rlp()); return t; }
static Bytes gkey(Gen& g) { return g.coin() ? lpad(be(g.below(6)), 32) : g.chance(1, 3) ? keccak(be(g.below(20))) : g.rnd(32); }
State gen_state(Gen& g, size_t ma, size_t ms, bool code) {
  State s; size_t n = code ? g.range(1, ma) : g.size(ma); for (size_t i = 0; i < n; i++) { Account a; a.nonce = g.chance(1, 4) ? 0 : g.u64(); a.balance = txg::gbig(g, g.chance(1, 8) ? 32 : 12); if (code ? g.chance(4, 5) : g.coin()) a.code = g.rnd(g.chance(1, 6) ? g.range(0, 3000) : g.range(0, 60));
    if (g.coin()) for (size_t k = g.size(ms); k--;) { Bytes v = g.coin() ? trim(g.rnd(g.range(1, 32))) : Bytes{(uint8_t) g.range(1, 255)}; if (v.empty()) v = {1}; a.storage[gkey(g)] = v; } s.acc[txg::gaddr(g)] = a; }
  return s;
}
Bytes bloom_of(const std::vector<Log>& l) { Bytes b(256, 0); auto add = [&](const Bytes& d) { Bytes h = keccak(d); for (int i = 0; i < 6; i += 2) { unsigned k = (h[i] << 8 | h[i + 1]) & 2047; b[255 - k / 8] |= 1 << (k % 8); } }; for (auto& x : l) { add(x.addr); for (auto& t : x.topics) add(t); } return b; }
Bytes Rcpt::enc() const { std::vector<Bytes> L; for (auto& l : logs) { std::vector<Bytes> t; for (auto& x : l.topics) t.push_back(ref::rlp(x)); L.push_back(rlp_list({ref::rlp(l.addr), rlp_list(t), ref::rlp(l.data)})); } std::vector<Bytes> rf{ref::rlp(status), ref::rlp(cum), ref::rlp(bloom), rlp_list(L)}; if (type == 0x7e) { rf.push_back(ref::rlp(dnonce)); rf.push_back(ref::rlp(dver)); } Bytes r = rlp_list(rf); if (type) r.insert(r.begin(), (uint8_t) type); return r; }
Bytes Wd::enc() const { return cat({U(index, 8), U(validator, 8), addr, U(amount, 8)}); }
Bytes Payload::enc() const {
  Bytes w; for (auto& x : wds) w = cat({w, x.enc()});
  return cont({F(parent), F(miner), F(state), F(receipts), F(bloom), F(randao), F(U(number, 8)), F(U(gasLimit, 8)), F(U(gasUsed, 8)), F(U(timestamp, 8)), D(extra), F(rev(lpad(baseFee, 32))), F(hash), D(dlist(txs)), D(w), F(U(blobGas, 8)), F(U(excess, 8))});
}
NP Payload::tree() const {
  std::vector<NP> t, w; for (auto& x : txs) t.push_back(bytes_list(x, 1u << 30)); for (auto& x : wds) w.push_back(merkleize({uint_leaf(x.index), uint_leaf(x.validator), leaf(x.addr), uint_leaf(x.amount)}, 4));
  return merkleize({leaf(parent), leaf(miner), leaf(state), leaf(receipts), bytes_vector(bloom), leaf(randao), uint_leaf(number), uint_leaf(gasLimit), uint_leaf(gasUsed), uint_leaf(timestamp), bytes_list(extra, 32), leaf(rev(lpad(baseFee, 32))), leaf(hash), mix_len(merkleize(t, 1 << 20), t.size()), mix_len(merkleize(w, gnosis ? 8 : 16), w.size()), uint_leaf(blobGas), uint_leaf(excess)}, 17);
}
NP body_tree(Gen& g, const Payload& p, bool electra, const Bytes& graffiti) {
  std::vector<NP> f; for (int i = 0; i < (electra ? 13 : 12); i++) f.push_back(leaf(g.rnd(32))); f[2] = leaf(graffiti.size() ? graffiti : g.rnd(32)); f[9] = p.tree(); return merkleize(f, 16);
}
ref::Trie Block::rtrie() const { Trie t; for (size_t i = 0; i < rcpts.size(); i++) t.put(ref::rlp((uint64_t) i), rcpts[i].enc()); return t; }
uint64_t gen_slot(Gen& g, const Spec& sp) {
  unsigned f = (unsigned) g.range(4, sp.forks.size()); uint64_t lo = sp.forks[f - 1], hi = f < sp.forks.size() ? sp.forks[f] - 1 : lo + 100000; uint64_t a = lo << sp.se, b = ((hi + 1) << sp.se) - 1;
  switch (g.below(5)) { case 0: return a + g.below(3); case 1: return b - g.below(3); case 2: { uint64_t p = period_of(sp, a) + 1 + g.below(20); uint64_t s = (p << (sp.se + sp.ep)) - 2 + g.below(4); return s > b ? a + g.below(b - a) : s; } default: return a + g.below(b - a + 1); }
}
Block gen_block(Gen& g, const Spec& sp, const BlockOpt& o) {
  Block b; b.sp = &sp; b.h.slot = o.slot ? o.slot : gen_slot(g, sp); b.h.proposer = g.below(1000000); b.h.parent = g.rnd(32); b.h.state = g.rnd(32);
  Payload& p = b.p; p.gnosis = sp.gnosis; p.parent = g.rnd(32); p.miner = txg::gaddr(g); p.randao = g.rnd(32); p.number = g.chance(1, 8) ? g.u64() : g.range(1, 30000000); if (!p.number) p.number = 1; p.gasLimit = g.u64(); p.gasUsed = g.u64(); p.timestamp = g.u64(); p.extra = g.blob(32); p.hash = g.rnd(32); p.blobGas = g.u64(); p.excess = g.u64(); p.baseFee = g.chance(1, 3) ? Bytes() : trim(be(g.below(200) * 1000000007ull)); p.bloom = Bytes(256, 0);
  uint64_t bf = 0; for (auto x : p.baseFee) bf = bf << 8 | x;
  if (o.max_txs) { uint64_t cum = 0; for (size_t n = o.max_txs > 100 && g.coin() ? o.max_txs - g.below(30) : g.range(1, o.max_txs); n--;) { txg::Opt to; to.deposited = false; to.min_fee = bf; to.chain = (uint32_t) sp.id; to.max_input = 100; txg::Tx t = txg::gen(g, to); b.txs.push_back(t); p.txs.push_back(t.raw);
      Rcpt r; r.type = t.type; r.status = g.chance(1, 10) ? Bytes() : Bytes{1}; cum += g.range(21000, 300000); r.cum = cum; for (size_t k = g.size(4); k--;) { Log l; l.addr = txg::gaddr(g); for (size_t m = g.below(5); m--;) l.topics.push_back(g.chance(1, 3) ? Bytes(32, (uint8_t) g.below(3)) : g.rnd(32)); l.data = g.rnd(g.coin() ? 32 * g.below(4) : g.size(100)); r.logs.push_back(l); } r.bloom = bloom_of(r.logs); for (int i = 0; i < 256; i++) p.bloom[i] |= r.bloom[i]; b.rcpts.push_back(r); } }
  for (size_t n = g.below(sp.gnosis ? 3 : 4); n--;) p.wds.push_back({g.u64(), g.u64(), txg::gaddr(g), g.u64()});
  if (o.state) b.st = gen_state(g, o.accounts, o.slots, o.code);
  p.receipts = b.rtrie().root(); p.state = b.st.trie().root(); b.body = body_tree(g, p, fork_of(sp, b.h.slot) >= 5, o.graffiti); b.h.body = b.body->h; return b;
}
// ---- storage
std::map<std::string, Bytes> store;
static bool sget(char* k, buffer_t* b) { Bytes* v; { pbt::HeapPause hp; auto it = store.find(k); if (it == store.end()) return false; v = &it->second; } bytes_t x; x.data = v->data(); x.len = (uint32_t) v->size(); buffer_append(b, x); return true; }
static void sset(char* k, bytes_t v) { pbt::HeapPause hp; store[k] = Bytes(v.data, v.data + v.len); }
static void sdel(char* k) { pbt::HeapPause hp; store.erase(k); }
void install_storage() { storage_plugin_t p; p.get = sget; p.set = sset; p.del = sdel; p.max_sync_states = 8; c4_set_storage_config(&p); store.clear(); }
void put_period(const Spec& sp, const std::vector<std::pair<uint32_t, unsigned>>& ps, bool des) {
  Bytes s{1}; std::string c = std::to_string(sp.id); for (auto& p : ps) { Bytes l = le(p.first, 4); s.insert(s.end(), l.begin(), l.end()); Bytes v = des ? committee(p.second).deser : cat({committee(p.second).keys, Bytes(32, 0)}); store["sync_" + c + "_" + std::to_string(p.first)] = v; } store["states_" + c] = s;
}
// ---- requests
Bytes request(const Bytes& d, const Bytes& p, const Bytes& s) { return cont({F(Bytes{0, 0, 1, 0}), D(d), D(p), D(s)}); }
Bytes state_proof(const Block& b, const HeaderProof& hp, int kind) {
  std::vector<uint64_t> gi{802}; if (kind == 1) gi.push_back(812); if (kind == 2) gi.push_back(806);
  return cont({D(kind == 0 ? uni(0) : kind == 1 ? uni(1, b.p.hash) : uni(2, U(b.p.number, 8))), D(multiproof(b.body, gi)), F(b.h.enc()), D(hp.enc())});
}
Bytes storage_proof_list(const Account* a, const std::vector<Bytes>& keys) { std::vector<Bytes> l; for (auto& k : keys) l.push_back(cont({F(k), D(dlist(a ? a->trie().proof(keccak(k)) : std::vector<Bytes>()))})); return dlist(l); }
Bytes account_proof(const State& st, const Bytes& addr, const std::vector<Bytes>& keys, const Bytes& sp) {
  auto it = st.acc.find(addr); return cont({D(dlist(st.trie().proof(keccak(addr)))), F(addr), D(storage_proof_list(it == st.acc.end() ? nullptr : &it->second, keys)), D(sp)});
}
const char* LATER = "\x01later";
std::string hexn(uint64_t v) { char b[40]; snprintf(b, sizeof b, "\"0x%llx\"", (unsigned long long) v); return b; }
std::string other_num(Gen& g, uint64_t n) { if (!g.chance(1, 4) || n == UINT64_MAX) return hexn(n ^ (1ull << g.below(64))); // (larger numbers read as UINT64_MAX)
  char b[80]; snprintf(b, sizeof b, "\"0x%llx%016llx\"", (unsigned long long) g.range(1, 300), (unsigned long long) (g.coin() ? n : n & 0xff)); return b; }
std::string q(const std::string& s) { return "\"" + s + "\""; }
Res verify(const Bytes& req, const std::string& method, const std::string& args, uint64_t chain, const Responder& rsp, const Bytes& witness) {
  Res r; Exact e(req); char* m = (char*) malloc(method.size() + 1); strcpy(m, method.c_str()); char* js = (char*) malloc(args.size() + 1); strcpy(js, args.c_str()); 
  bytes_t in = e.b(); if (req.empty()) { in.data = NULL; in.len = 0; }
  pbt::heap_begin();
  { verify_ctx_t ctx; memset(&ctx, 0, sizeof ctx); r.st = c4_verify_init(&ctx, in, m, json_parse(js), chain);
    if (r.st == C4_SUCCESS) {
      if (witness.size()) { ctx.witness_keys.data = (uint8_t*) malloc(witness.size()); memcpy(ctx.witness_keys.data, witness.data(), witness.size()); ctx.witness_keys.len = (uint32_t) witness.size(); }
      for (int round = 0; round < 40; round++) { r.st = c4_verify(&ctx); int open = 0; for (data_request_t* d = ctx.state.requests; d; d = d->next) if (c4_state_is_pending(d)) open++; r.pending = open;
        CHECK(r.st != C4_PENDING || open, "pending without an open request"); CHECK(r.st != C4_SUCCESS || (!ctx.state.error && !open), "success with error or pending requests"); CHECK(r.st != C4_ERROR || ctx.state.error, "error status without a message");
        if (r.st != C4_PENDING || !rsp) break;
        for (data_request_t* d = ctx.state.requests; d; d = d->next) if (c4_state_is_pending(d)) { Bytes out; std::string err; bool ok; { pbt::HeapPause hp; ok = rsp(d, out, err); }
            if (ok) { bool raw = d->encoding == C4_DATA_ENCODING_SSZ && out.size() && out[0] != '{'; d->response.data = (uint8_t*) malloc(out.size() + !raw); memcpy(d->response.data, out.data(), out.size()); if (!raw) d->response.data[out.size()] = 0; d->response.len = (uint32_t) out.size(); } else if (err != LATER) d->error = strdup(err.c_str()); } }
    }
    r.success = ctx.success; { pbt::HeapPause hp; if (ctx.state.error) r.err = ctx.state.error; if (r.st == C4_SUCCESS && ctx.data.def) { r.type = ctx.data.def->type; r.name = ctx.data.def->name ? ctx.data.def->name : ""; if (r.type != SSZ_TYPE_NONE && ctx.data.bytes.data) r.data.assign(ctx.data.bytes.data, ctx.data.bytes.data + ctx.data.bytes.len); } }
    c4_verify_free_data(&ctx); }
  long live = pbt::heap_live(); if (live) pbt::heap_describe(); pbt::heap_end(); free(m); free(js);
  CHECK(live == 0, "%ld allocations leaked (status %d, %s)", live, (int) r.st, r.err.c_str());
  CHECK((r.st == C4_SUCCESS) == r.success, "status %d but success flag %d (%s)", (int) r.st, r.success, r.err.c_str());
  return r;
}
} // namespace world
