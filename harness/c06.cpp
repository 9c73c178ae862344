// C06: scripted contract executions (call trees) against a journaled model of the proven state.
#include "ethdata.h"
#include "evmone_c_wrapper.h"
#include <cstdarg>
#include <memory>
#include <set>
using namespace world;
typedef evmone_result (*verif_evm_fn)(const evmone_host_interface*, void*, int, const evmone_message*, const uint8_t*, size_t);
extern "C" verif_evm_fn verif_evm_execute;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
// ---- scripts
enum OpK { BALANCE, CODESIZE, CODEHASH, COPYCODE, EXISTS, SLOAD, SSTORE, LOG, CALL, PRECOMPILE };
struct Frame;
struct Op { OpK k; Bytes addr, key, val, data; std::vector<Bytes> topics; size_t off = 0, n = 0, num = 0; int kind = 0; bool st = false; std::shared_ptr<Frame> child; int status = 0; Bytes out; };
struct Frame { Bytes self, code_addr, sender, input, value, code; bool st = false; int depth = 0; std::vector<Op> ops; int status = 0; Bytes out; bool ran = false; };
// ---- what the VM sees: first difference to the expected values
static std::string* diff; static Frame* next_frame; static uint64_t root_gas;
static void bad(const char* fmt, ...) { pbt::HeapPause hp; if (!diff->empty()) return; char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); *diff = b; }
static std::string hs(const uint8_t* d, size_t n) { return n ? pbt::hex(d, n > 64 ? 64 : n) : ""; }
#define SAME(what, p, n, want) do { if ((n) != (want).size() || ((n) && memcmp((p), (want).data(), (n)))) { pbt::HeapPause hp_; bad("%s: %s instead of %s", what, hs((const uint8_t*) (p), (n)).c_str(), pbt::hex(want).substr(0, 128).c_str()); } } while (0)
static void release(void* p) { free(p); }
static evmc_address A(const Bytes& b) { evmc_address a; memcpy(a.bytes, b.data(), 20); return a; }
static evmc_bytes32 B32(const Bytes& b) { evmc_bytes32 a; memset(a.bytes, 0, 32); memcpy(a.bytes + 32 - b.size(), b.data(), b.size()); return a; }
static evmone_result vm(const evmone_host_interface* h, void* ctx, int, const evmone_message* m, const uint8_t* code, size_t n) {
  evmone_result r; memset(&r, 0, sizeof r); Frame* f = next_frame; next_frame = nullptr; if (!f) { bad("unexpected execution"); return r; } f->ran = true;
  SAME("code", code, n, f->code); SAME("destination", m->destination.bytes, (size_t) 20, f->self); SAME("sender", m->sender.bytes, (size_t) 20, f->sender); SAME("code address", m->code_address.bytes, (size_t) 20, f->code_addr); SAME("input", m->input_data, m->input_size, f->input); SAME("value", m->value.bytes, (size_t) 32, f->value); if (m->is_static != f->st || m->depth != f->depth) bad("static %d depth %d instead of %d %d", m->is_static, m->depth, f->st, f->depth); if (!f->depth && (uint64_t) m->gas != root_gas) bad("gas %lld instead of %llu", (long long) m->gas, (unsigned long long) root_gas);
  const uint8_t* last = nullptr; const Bytes* last_out = nullptr;
  for (auto& o : f->ops) {
    evmc_address a = A(o.addr.size() ? o.addr : f->self);
    switch (o.k) {
      case BALANCE: { evmc_bytes32 v = h->get_balance(ctx, &a); SAME("balance", v.bytes, (size_t) 32, o.val); break; }
      case CODESIZE: { size_t s = h->get_code_size(ctx, &a); if (s != o.num) bad("code size %zu instead of %zu", s, o.num); break; }
      case CODEHASH: { evmc_bytes32 v = h->get_code_hash(ctx, &a); SAME("code hash", v.bytes, (size_t) 32, o.val); break; }
      case COPYCODE: { uint8_t* b; { pbt::HeapPause hp; b = (uint8_t*) malloc(o.n ? o.n : 1); } size_t s = h->copy_code(ctx, &a, o.off, b, o.n); SAME("copied code", b, s, o.out); { pbt::HeapPause hp; free(b); } break; }
      case EXISTS: { bool e = h->account_exists(ctx, &a); if (e != (o.num != 0)) bad("account %s %d", pbt::hex(o.addr).c_str(), e); break; }
      case SLOAD: { evmc_bytes32 k = B32(o.key), v = h->get_storage(ctx, &a, &k); SAME("storage", v.bytes, (size_t) 32, o.val); break; }
      case SSTORE: { evmc_bytes32 k = B32(o.key), v = B32(o.val); h->set_storage(ctx, &a, &k, &v); break; }
      case LOG: { evmc_bytes32 t[4]; for (size_t i = 0; i < o.topics.size(); i++) t[i] = B32(o.topics[i]); h->emit_log(ctx, &a, o.data.data(), o.data.size(), t, o.topics.size()); break; }
      case CALL: case PRECOMPILE: {
        evmone_message c; memset(&c, 0, sizeof c); c.kind = (decltype(c.kind)) o.kind; c.is_static = o.st; c.depth = f->depth + 1; c.gas = o.k == PRECOMPILE ? (int64_t) o.num : 5000000; c.destination = A(o.kind == 0 ? o.addr : f->self); c.code_address = A(o.addr); c.sender = A(o.kind == 1 ? f->sender : f->self); c.value = o.kind == 1 ? B32(f->value) : B32({}); c.input_data = o.data.data(); c.input_size = o.data.size(); evmone_result cr; memset(&cr, 0, sizeof cr);
        next_frame = o.k == CALL ? o.child.get() : nullptr; h->call(ctx, &c, nullptr, 0, &cr); if (o.child && !o.child->ran) bad("called contract not executed"); next_frame = nullptr; if (o.status == -99 ? cr.status_code == 0 || cr.gas_left : cr.status_code != o.status) bad("status of the call %d instead of %d", cr.status_code, o.status); SAME("returned data", cr.output_data, cr.output_size, o.out); if (cr.gas_left > (uint64_t) c.gas) bad("gas left %llu", (unsigned long long) cr.gas_left); last = cr.output_data; last_out = &o.out; break; }
    }
    if (last && last_out->size()) SAME("return buffer", last, last_out->size(), *last_out);
  }
  r.status_code = f->status; r.gas_left = 5; r.output_size = f->out.size(); if (f->out.size()) { uint8_t* o = (uint8_t*) malloc(f->out.size()); memcpy(o, f->out.data(), f->out.size()); r.output_data = o; r.release_callback = (void*) release; r.release_context = o; } return r;
}
// ---- model
struct Ov { bool bal = false, code = false, state = false, diffs = false; Bytes balance, c; std::map<Bytes, Bytes> slots; };
struct MAcc { bool ovb = false, ovc = false, full = false; Bytes balance, code; std::map<Bytes, Bytes> w; };
struct MState { std::map<Bytes, MAcc> a; std::vector<Log> logs; };
struct World { const Spec* sp; Block b; HeaderProof hp; Sync sy; int bk; std::string block; std::map<Bytes, Ov> ov; std::vector<Bytes> addrs; Bytes from, value, data; std::shared_ptr<Frame> root; MState end; bool sim = false; uint64_t gas = 0; std::map<Bytes, std::set<Bytes>> touched; /* account -> slots */ std::set<Bytes> code_needed; int depth = 0, calls = 0, reverts = 0, writes = 0; };
static const Account* acc(const State& s, const Bytes& a) { auto i = s.acc.find(a); return i == s.acc.end() ? nullptr : &i->second; }
static Bytes m_balance(World& w, const MState& m, const Bytes& a) { auto i = m.a.find(a); if (i != m.a.end() && i->second.ovb) return i->second.balance; w.touched[a]; const Account* s = acc(w.b.st, a); return s ? ref::lpad(s->balance, 32) : z(32); }
static Bytes m_code(World& w, const MState& m, const Bytes& a) { auto i = m.a.find(a); if (i != m.a.end() && i->second.ovc) return i->second.code; w.touched[a]; w.code_needed.insert(a); const Account* s = acc(w.b.st, a); return s ? s->code : Bytes(); }
static bool has_code(const World& w, const MState& m, const Bytes& a) { auto i = m.a.find(a); if (i != m.a.end() && i->second.ovc) return i->second.code.size(); const Account* s = acc(w.b.st, a); return s && s->code.size(); }
static int m_exists(World& w, const MState& m, const Bytes& a) { // -1: depends on the definition of an empty account
  auto i = m.a.find(a); if (i != m.a.end()) { if ((i->second.ovc && i->second.code.size()) || (i->second.ovb && ref::trim(i->second.balance).size())) return 1; if (i->second.ovc || i->second.ovb) return -1; }
  const Account* s = acc(w.b.st, a); if (!s) return 0; return s->nonce || ref::trim(s->balance).size() || s->code.size() ? 1 : -1; }
static Bytes m_slot(World& w, const MState& m, const Bytes& a, const Bytes& k) { auto i = m.a.find(a); if (i != m.a.end()) { auto j = i->second.w.find(k); if (j != i->second.w.end()) return j->second; if (i->second.full) return z(32); } w.touched[a].insert(k); const Account* s = acc(w.b.st, a); if (!s) return z(32); auto j = s->storage.find(k); return j == s->storage.end() ? z(32) : ref::lpad(j->second, 32); }
static Bytes pick_key(Gen& g, const World& w, const Bytes& a) { const Account* s = acc(w.b.st, a); auto o = w.ov.find(a); if (o != w.ov.end() && o->second.slots.size() && g.chance(1, 3)) { auto it = o->second.slots.begin(); std::advance(it, g.below(o->second.slots.size())); return it->first; } if (s && s->storage.size() && g.coin()) { auto it = s->storage.begin(); std::advance(it, g.below(s->storage.size())); return it->first; } return ref::lpad(ref::be(g.below(4)), 32); }
static void gen_frame(Gen& g, World& w, MState& m, Frame& f) {
  f.code = m_code(w, m, f.code_addr); w.depth = std::max(w.depth, f.depth); if (f.code.empty()) return;
  size_t n = g.below(f.depth ? 6 : 9) + (f.depth ? 0 : 1);
  for (size_t i = 0; i < n; i++) {
    Op o; o.addr = g.pick(w.addrs);
    switch (g.weighted({2, 1, 1, 2, 1, 5, 5, 3, f.depth < 3 ? 6u : 0u, 1})) {
      case 0: o.k = BALANCE; o.val = m_balance(w, m, o.addr); break;
      case 1: o.k = CODESIZE; o.num = m_code(w, m, o.addr).size(); break;
      case 2: { int e = m_exists(w, m, o.addr); if (e < 0) continue; o.k = CODEHASH; w.touched[o.addr]; o.val = e ? ref::keccak(m_code(w, m, o.addr)) : z(32); break; }
      case 3: { o.k = COPYCODE; Bytes c = m_code(w, m, o.addr); o.off = g.chance(1, 4) ? c.size() + g.below(3) : g.below(c.size() + 1); o.n = g.below(40); if (o.off < c.size()) o.out.assign(c.begin() + o.off, c.begin() + std::min(c.size(), o.off + o.n)); break; }
      case 4: { int e = m_exists(w, m, o.addr); if (e < 0) continue; o.k = EXISTS; w.touched[o.addr]; o.num = (size_t) e; break; }
      case 5: o.k = SLOAD; o.addr = f.self; o.key = pick_key(g, w, f.self); o.val = m_slot(w, m, f.self, o.key); break;
      case 6: { if (f.st) continue; o.k = SSTORE; o.addr = f.self; o.key = pick_key(g, w, f.self); m_slot(w, m, f.self, o.key); o.val = g.chance(1, 4) ? z(32) : g.chance(1, 4) ? m_slot(w, m, f.self, o.key) : g.rnd(32); m.a[f.self].w[o.key] = o.val; w.writes++; break; }
      case 7: { if (f.st) continue; o.k = LOG; o.addr = f.self; for (size_t t = g.below(5); t--;) o.topics.push_back(g.rnd(32)); o.data = g.rnd(g.below(40)); m.logs.push_back({o.addr, o.topics, o.data}); break; }
      case 8: { o.k = CALL; o.kind = (int) g.weighted({3, 2, 1}); o.st = f.st || (o.kind == 0 && g.chance(1, 4)); o.data = g.rnd(g.below(40)); o.child = std::make_shared<Frame>(); Frame& c = *o.child; c.self = o.kind == 0 ? o.addr : f.self; c.code_addr = o.addr; c.sender = o.kind == 1 ? f.sender : f.self; c.value = o.kind == 1 ? f.value : z(32); c.input = o.data; c.st = o.st; c.depth = f.depth + 1; MState save = m; gen_frame(g, w, m, c); if (c.status) { m = save; w.reverts++; } w.calls++; o.status = c.status; o.out = c.out; break; }
      default: { o.k = PRECOMPILE; bool sha = g.coin(); o.addr = ref::lpad(Bytes{(uint8_t) (sha ? 2 : 4)}, 20); o.kind = (int) g.below(3); o.st = f.st; o.data = g.rnd(g.below(80)); o.out = sha ? ref::sha256(o.data) : o.data; size_t cost = sha ? 60 + 12 * ((o.data.size() + 31) / 32) : 15 + 3 * ((o.data.size() + 31) / 32); o.num = g.chance(1, 4) ? g.below(cost + 3) : 100000; if (o.num < cost) { o.status = -99; o.out.clear(); g.label("precompile out of gas"); } }
    }
    f.ops.push_back(o);
  }
  f.status = g.chance(1, f.depth ? 3 : 12) ? (int) g.range(1, 3) : 0; f.out = g.rnd(g.chance(1, 5) ? 0 : g.below(70)); if (f.status == 1 || f.status == 3) f.out.clear();
}
static std::string ovjson(const World& w) {
  std::string s = "{"; for (auto& e : w.ov) { const Ov& o = e.second; s += (s.size() > 1 ? "," : "") + hexs(e.first) + ":{"; std::string p; auto add = [&](const std::string& x) { p += (p.size() ? "," : "") + x; }; if (o.bal) { Bytes t = ref::trim(o.balance); std::string h = pbt::hex(t); size_t i = h.find_first_not_of('0'); add("\"balance\":\"0x" + (i == std::string::npos ? "0" : h.substr(i)) + "\""); } if (o.code) add("\"code\":" + hexs(o.c)); if (o.state || o.diffs) { std::string l; for (auto& k : o.slots) l += (l.size() ? "," : "") + hexs(k.first) + ":" + hexs(k.second); add(std::string(o.state ? "\"state\"" : "\"stateDiff\"") + ":{" + l + "}"); } s += p + "}"; } return s + "}";
}
static std::string args(const World& w) { std::string s = "[{\"to\":" + hexs(w.root->self) + ",\"data\":" + hexs(w.data); if (ref::trim(w.from).size()) s += ",\"from\":" + hexs(w.from); if (w.gas) s += ",\"gas\":" + hexn(w.gas); if (ref::trim(w.value).size()) { std::string h = pbt::hex(ref::trim(w.value)); size_t i = h.find_first_not_of('0'); s += ",\"value\":\"0x" + h.substr(i) + "\""; } s += "}," + w.block; if (w.ov.size()) s += "," + ovjson(w); return s + "]"; }
static World gen(Gen& g, bool overrides, bool value = false) {
  World w; w.sp = &g.pick(specs()); BlockOpt o; o.max_txs = 0; o.accounts = 4; o.slots = 4; o.code = true; w.b = gen_block(g, *w.sp, o); w.sy.sp = w.sp; w.sy.comm = comm; w.hp = w.sy.sign(g, w.b.h, 0, 512); uint64_t p = period_of(*w.sp, w.b.h.slot + 1); install_storage(); put_period(*w.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}});
  w.bk = (int) g.below(3); w.block = w.bk == 0 ? q("latest") : w.bk == 1 ? hexs(w.b.p.hash) : hexn(w.b.p.number);
  for (auto& e : w.b.st.acc) w.addrs.push_back(e.first); while (w.addrs.size() < 3 || g.chance(1, 3)) w.addrs.push_back(g.rnd(20)); if (g.chance(1, 8)) w.addrs.push_back(ref::lpad(Bytes{(uint8_t) g.range(0x12, 0xff)}, 20)); MState m;
  if (overrides) for (auto& a : w.addrs) if (g.chance(2, 3) || w.ov.empty()) { Ov v; if (g.coin()) { v.bal = true; v.balance = g.chance(1, 4) ? z(32) : ref::lpad(g.rnd(g.range(1, 32)), 32); } if (g.coin()) { v.code = true; v.c = g.rnd(g.below(30)); } switch (g.below(3)) { case 0: break; case 1: v.state = true; break; default: v.diffs = true; } if (v.state || v.diffs) for (size_t k = g.below(4); k--;) v.slots[pick_key(g, w, a)] = g.chance(1, 4) ? z(32) : g.rnd(32); w.ov[a] = v; MAcc& x = m.a[a]; x.ovb = v.bal; x.balance = v.balance; x.ovc = v.code; x.code = v.c; x.full = v.state; x.w = v.slots; }
  w.sim = g.coin(); w.data = g.rnd(g.below(70)); w.from = g.coin() ? g.rnd(20) : z(20); w.value = value ? ref::lpad(g.rnd(g.range(1, 12)), 32) : z(32); w.gas = g.coin() ? g.range(1, 1u << 24) : 0;
  w.root = std::make_shared<Frame>(); Frame& f = *w.root; f.self = g.pick(w.addrs); for (int i = 0; i < 6 && !has_code(w, m, f.self); i++) f.self = g.pick(w.addrs); f.code_addr = f.self; f.sender = w.from; f.input = w.data; f.value = w.value; gen_frame(g, w, m, f); w.end = m; if (w.touched.empty()) w.touched[w.addrs[0]];
  g.note("chain %llu %s depth %d calls %d reverts %d writes %d logs %zu overrides %zu status %d", (unsigned long long) w.sp->id, w.sim ? "simulate" : "call", w.depth, w.calls, w.reverts, w.writes, m.logs.size(), w.ov.size(), f.status); return w;
}
// ---- proofs
struct PAcc { Bytes addr; std::vector<Bytes> proof; Bytes code; std::vector<std::pair<Bytes, std::vector<Bytes>>> slots; };
static std::vector<PAcc> proof_accounts(Gen& g, const World& w, const State& st, bool extra = true) {
  std::vector<PAcc> r; auto t = w.touched; if (extra) for (auto& a : w.addrs) if (g.chance(1, 4)) t[a]; ref::Trie tr = st.trie();
  for (auto& e : t) { PAcc p; p.addr = e.first; p.proof = tr.proof(ref::keccak(e.first)); const Account* a = acc(st, e.first); bool need = w.code_needed.count(e.first); Bytes code = a ? a->code : Bytes(); if (need && code.size()) p.code = g.coin() ? uni(1, code) : uni(0, Bytes{1}); else if (code.size()) p.code = g.chance(1, 3) ? uni(1, code) : g.coin() ? uni(0, Bytes{1}) : uni(0, Bytes{0}); else p.code = g.chance(1, 4) ? uni(1, Bytes()) : g.chance(1, 4) ? uni(0, Bytes{1}) : uni(0, Bytes{0});
    for (auto& k : e.second) p.slots.push_back({k, a ? a->trie().proof(ref::keccak(k)) : std::vector<Bytes>()}); r.push_back(p); }
  return r;
}
static Bytes enc(const std::vector<PAcc>& l, const Bytes& sp) { std::vector<Bytes> e; for (auto& p : l) { std::vector<Bytes> s; for (auto& k : p.slots) s.push_back(cont({F(k.first), D(dlist(k.second))})); e.push_back(cont({D(dlist(p.proof)), F(p.addr), D(p.code), D(dlist(s))})); } return uni(5, cont({D(dlist(e)), D(sp)})); }
static Bytes sim_result(const World& w) { std::vector<Bytes> L; for (auto& l : w.end.logs) L.push_back(cont({F(U(16, 2)), F(U(0, 1)), D(Bytes()), D(Bytes()), D(cont({F(l.addr), D(l.data), D(join(l.topics))}))})); return cont({F(U(0x258, 4)), F(z(8)), F(U(21000, 8)), F(U(21000, 8)), D(dlist(L)), F(z(256)), F(U(1, 1)), D(Bytes()), F(z(1)), D(w.root->out)}); }
static Bytes truth(const World& w) { return w.sim ? sim_result(w) : w.root->out; }
static Bytes code_override; static bool code_serve = true;
static Responder node(const World& w) { return [&w](data_request_t* r, Bytes& out, std::string& e) { std::string p((char*) r->payload.data, r->payload.len); if (!code_serve || p.find("eth_getCode") == std::string::npos) { e = "no node"; return false; } for (auto& a : w.addrs) if (p.find(pbt::hex(a)) != std::string::npos) { const Account* x = acc(w.b.st, a); std::string s = "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + hexs(code_override.size() ? code_override : x ? x->code : Bytes()) + "}"; out.assign(s.begin(), s.end()); return true; } e = "unknown account"; return false; }; }
static void reset(Frame& f) { f.ran = false; for (auto& o : f.ops) if (o.child) reset(*o.child); }
static Res run(World& w, const Bytes& req, std::string& d, const std::string& a) { d.clear(); diff = &d; reset(*w.root); next_frame = w.root.get(); root_gas = w.gas ? w.gas : 10000000; verif_evm_execute = vm; Res r = verify(req, w.sim ? "colibri_simulateTransaction" : "eth_call", a, w.sp->id, node(w)); next_frame = nullptr; return r; }
static const char* M(const World& w) { return w.sim ? "simulation" : "call"; }
static void labels(Gen& g, const World& w) { g.label(w.sim ? "simulate" : "call"); g.label("depth " + std::to_string(w.depth)); if (w.reverts) g.label("failed sub-call"); if (w.writes) g.label("storage written"); if (w.end.logs.size()) g.label("logs"); if (w.root->status) g.label("fails"); if (w.ov.size()) g.label("overrides"); }
static Bytes claim(Gen& g, const World& w) { return g.coin() ? uni(0) : uni(w.sim ? 9 : 2, truth(w)); }
static void expect(Gen& g, World& w, const Bytes& req) {
  std::string d; Res r = run(w, req, d, args(w)); CHECK(d.empty(), "the EVM of the %s saw %s", M(w), d.c_str()); CHECK(w.root->ran, "%s not executed: %s", M(w), r.err.c_str());
  if (w.root->status) { CHECK(!r.accepted(), "failed %s accepted", M(w)); return; } CHECK(r.accepted(), "honest %s rejected: %s %s", M(w), r.err.c_str(), args(w).c_str()); CHECK(r.data == truth(w), "%s reported %s instead of %s", M(w), pbt::hex(r.data).c_str(), pbt::hex(truth(w)).c_str()); CHECK(r.type == (w.sim ? SSZ_TYPE_CONTAINER : SSZ_TYPE_LIST), "type %d", r.type);
}
static void honest(Gen& g, bool ov) { World w = gen(g, ov); labels(g, w); if (w.calls || w.writes || w.end.logs.size()) g.nontrivial(w.b.h.body.data(), 32); for (int i = 0; i < 2; i++) expect(g, w, request(claim(g, w), enc(proof_accounts(g, w, w.b.st), state_proof(w.b, w.hp, w.bk)))); }
PROP(execution, 900) { honest(g, false); }
PROP(overrides, 600) { honest(g, true); }
// accepted: exactly the expected execution
static void judge(Gen& g, World& w, const Bytes& req, const std::string& a, const std::string& what, bool must_reject) {
  std::string d; Res r = run(w, req, d, a); if (!r.accepted()) { g.label("rejected: " + what); return; } CHECK(!must_reject, "%s accepted with %s: %s", M(w), what.c_str(), a.c_str()); CHECK(!w.root->status, "failed %s accepted with %s", M(w), what.c_str()); CHECK(d.empty(), "%s accepted with %s although the EVM saw %s", M(w), what.c_str(), d.c_str()); CHECK(r.data == truth(w), "%s accepted with %s: %s instead of %s", M(w), what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(truth(w)).c_str()); g.label("still true: " + what);
}
PROP(altered, 700) {
  World w = gen(g, g.chance(1, 3)); labels(g, w); g.nontrivial(w.b.h.body.data(), 32); expect(g, w, request(claim(g, w), enc(proof_accounts(g, w, w.b.st), state_proof(w.b, w.hp, w.bk))));
  for (int i = 0; i < 5; i++) {
    std::vector<PAcc> l = proof_accounts(g, w, w.b.st); Bytes sp = state_proof(w.b, w.hp, w.bk), data = claim(g, w), req; std::string a = args(w), what; bool must = false; code_override.clear(); code_serve = true; if (g.chance(1, 6)) store.erase(store.lower_bound("code_"), store.lower_bound("code`"));
    switch (g.below(10)) {
      case 0: what = "byte altered"; req = request(data, enc(l, sp)); req[g.below(req.size())] ^= (uint8_t) g.range(1, 255); break;
      case 1: { what = "account dropped"; if (l.size()) l.erase(l.begin() + g.below(l.size())); break; }
      case 2: { what = "slot dropped"; std::vector<size_t> c; for (size_t k = 0; k < l.size(); k++) if (l[k].slots.size()) c.push_back(k); if (c.empty()) continue; auto& s = l[g.pick(c)].slots; s.erase(s.begin() + g.below(s.size())); break; }
      case 3: { what = "another state"; State s2 = w.b.st; const Bytes ad = l[g.below(l.size())].addr; Account& x = s2.acc[ad]; switch (g.below(4)) { case 0: x.balance = g.rnd(6); x.balance[0] |= 1; break; case 1: x.code = g.rnd(g.below(20)); break; case 2: for (auto& k : w.touched[ad]) x.storage[k] = Bytes{(uint8_t) g.range(1, 255)}; break; default: x.nonce++; } auto l2 = proof_accounts(g, w, s2); if (g.coin()) { what = "one account of another state"; for (auto& y : l2) if (y.addr != ad) for (auto& z0 : l) if (z0.addr == y.addr) { y = z0; break; } } if (g.chance(1, 3)) { what = "account of another state added"; for (auto& y : l2) if (y.addr == ad) { if (g.coin()) l.push_back(y); else l.insert(l.begin(), y); break; } } else l = l2; break; }
      case 4: { what = "code replaced"; PAcc& x = l[g.below(l.size())]; x.code = g.chance(1, 3) ? uni(0, Bytes{0}) : uni(1, g.rnd(g.below(20))); break; }
      case 5: { what = "node returns other code"; store.erase(store.lower_bound("code_"), store.lower_bound("code`")); if (g.coin()) code_override = g.rnd(g.range(1, 20)); else code_serve = false; break; }
      case 6: { what = "claimed result"; must = true; Bytes t = truth(w); if (w.sim) { World w2 = w; switch (g.below(5)) { case 0: w2.root = std::make_shared<Frame>(*w.root); w2.root->out.push_back(1); t = sim_result(w2); break; case 1: if (w.end.logs.empty()) { w2.end.logs.push_back({g.rnd(20), {}, {}}); } else w2.end.logs.pop_back(); t = sim_result(w2); break; case 2: if (w.end.logs.empty()) continue; w2.end.logs[g.below(w2.end.logs.size())].data.push_back(7); t = sim_result(w2); break; case 3: if (w.end.logs.size() < 2) continue; std::swap(w2.end.logs[0], w2.end.logs[1]); t = sim_result(w2); if (t == truth(w)) continue; break; default: t[g.below(t.size())] ^= (uint8_t) g.range(1, 255); } } else if (t.size() && g.coin()) t[g.below(t.size())] ^= 1; else if (t.size() && g.coin()) t.pop_back(); else t.push_back((uint8_t) g.below(2)); data = uni(w.sim ? 9 : 2, t); break; }
      case 7: { what = "another block requested"; must = true; Bytes h = w.b.p.hash; h[g.below(32)] ^= 1; World w2 = w; w2.block = g.coin() ? hexs(h) : other_num(g, w.b.p.number); a = args(w2); if (g.coin()) sp = state_proof(w.b, w.hp, w2.block.size() == 68 ? 1 : 2); break; }
      case 8: { what = "unsigned block"; must = true; Block b2 = w.b; b2.p.gasUsed ^= 1; b2.body = body_tree(g, b2.p, fork_of(*w.sp, b2.h.slot) >= 5, {}); b2.h.body = b2.body->h; sp = state_proof(b2, w.hp, w.bk); if (w.bk == 1) a = args(w); break; }
      default: { what = "account listed twice"; PAcc x = l[g.below(l.size())]; if (g.coin()) { x.slots.clear(); x.code = uni(0, Bytes{0}); } if (g.coin()) l.push_back(x); else l.insert(l.begin(), x); }
    }
    if (req.empty()) req = request(data, enc(l, sp)); g.note("%s", what.c_str()); judge(g, w, req, a, what, must); code_override.clear(); code_serve = true;
  }
}
// what rejected proofs leave behind must not influence later executions (the code cache is shared by all of them)
PROP(code_cache, 500) {
  World w = gen(g, false); labels(g, w); g.nontrivial(w.b.h.body.data(), 32); code_override.clear(); code_serve = true;
  for (int i = 0; i < 6; i++) {
    std::vector<PAcc> l = proof_accounts(g, w, w.b.st); Bytes data = claim(g, w), sp = state_proof(w.b, w.hp, w.bk);
    if (i < 5 && g.chance(2, 3)) { bool any = false; for (auto& p : l) { if (g.coin()) { p.code = uni(1, g.coin() ? Bytes() : g.rnd(g.range(1, 12))); any = true; } if (g.chance(1, 4)) { State s2 = w.b.st; s2.acc[p.addr].nonce++; p.proof = s2.trie().proof(ref::keccak(p.addr)); } } if (g.chance(1, 4)) code_override = g.rnd(5); judge(g, w, request(data, enc(l, sp)), args(w), "foreign code", false); code_override.clear(); g.label(any ? "poisoned" : "not poisoned"); }
    else expect(g, w, request(data, enc(l, sp)));
  }
}
// calls of precompiled contracts need no code
PROP(precompile, 300) {
  World w = gen(g, false); bool sha = g.coin(); g.nontrivial(w.data.data(), w.data.size()); Frame f; f.self = ref::lpad(Bytes{(uint8_t) (sha ? 2 : 4)}, 20); f.out = sha ? ref::sha256(w.data) : w.data; w.root = std::make_shared<Frame>(f); w.end.logs.clear(); g.label(w.data.empty() ? "empty" : "data"); g.label(M(w));
  for (int i = 0; i < 3; i++) { Bytes t = truth(w), data = claim(g, w); bool good = i == 0 || g.coin(); if (!good) { if (t.size() && g.coin()) t[g.below(t.size())] ^= 1; else t.push_back(0); data = uni(w.sim ? 9 : 2, t); } std::string d; Res r = run(w, request(data, enc(proof_accounts(g, w, w.b.st), state_proof(w.b, w.hp, w.bk))), d, args(w)); CHECK(r.accepted() == good, "%s of a precompile: accepted %d %s", M(w), r.accepted(), r.err.c_str()); if (good) CHECK(r.data == truth(w), "%s reported %s", M(w), pbt::hex(r.data).c_str()); }
}
// malformed or contradictory overrides never change what is executed unnoticed
PROP(bad_overrides, 300) {
  World w = gen(g, true); std::string s = ovjson(w); switch (g.below(7)) { case 0: s = "{\"0x1234\":{}}"; break; case 1: s = "{" + hexs(w.addrs[0]) + ":{\"nonce\":\"0x1\"}}"; break; case 2: s = "{" + hexs(w.addrs[0]) + ":{\"balance\":\"0x" + std::string(65, '1') + "\"}}"; break; case 3: s = "{" + hexs(w.addrs[0]) + ":{\"state\":{},\"stateDiff\":{}}}"; break; case 4: s = "{" + hexs(w.addrs[0]) + ":{\"code\":\"0x1\",\"foo\":1}}"; break; case 5: s = "{" + hexs(w.addrs[0]) + ":{\"stateDiff\":{\"0x01\":" + hexs(z(32)) + "}}}"; break; default: s = s.substr(0, s.size() - 1) + "," + hexs(g.rnd(20)) + ":{\"movePrecompileToAddress\":" + hexs(g.rnd(20)) + "}}"; }
  g.note("%s", s.c_str()); g.nontrivial(s.data(), s.size()); World w2 = w; w2.ov.clear(); std::string a = args(w2); a = a.substr(0, a.size() - 1) + "," + s + "]"; std::string d; Res r = run(w, request(claim(g, w), enc(proof_accounts(g, w, w.b.st), state_proof(w.b, w.hp, w.bk))), d, a); CHECK(!r.accepted(), "accepted with overrides %s", s.c_str()); g.label("rejected");
}
// what the host does not implement: listed as known findings
static int probe; static Bytes probe_out;
static evmone_result probe_vm(const evmone_host_interface* h, void* ctx, int, const evmone_message* m, const uint8_t*, size_t) { evmone_result r; memset(&r, 0, sizeof r); evmc_bytes32 v = probe ? h->get_block_hash(ctx, 1) : h->get_balance(ctx, &m->destination); { pbt::HeapPause hp; probe_out.assign(v.bytes, v.bytes + 32); } uint8_t* o = (uint8_t*) malloc(32); memcpy(o, v.bytes, 32); r.output_data = o; r.output_size = 32; r.release_callback = (void*) release; r.release_context = o; return r; }
PROP(unsupported, 60) {
  World w = gen(g, false, true); if (!has_code(w, MState(), w.root->self)) throw pbt::Discard(); probe = (int) g.below(2); w.sim = false; m_balance(w, MState(), w.root->self); m_code(w, MState(), w.root->self); g.nontrivial(w.b.h.body.data(), 32); verif_evm_execute = probe_vm; Res r = verify(request(uni(0), enc(proof_accounts(g, w, w.b.st), state_proof(w.b, w.hp, w.bk))), "eth_call", args(w), w.sp->id, node(w)); g.label(probe ? "block hash" : "value"); if (!r.accepted()) return;
  if (probe) REQUIRE_KNOWN("block-context", "the hash of a recent block is served as %s", pbt::hex(probe_out).c_str());
  else if (ref::trim(w.value).size() && r.data == ref::lpad(acc(w.b.st, w.root->self)->balance, 32)) REQUIRE_KNOWN("value-transfer", "the value of the call is not part of the balance");
}
