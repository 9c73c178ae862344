// C08: histories of bootstraps, light client updates and zk sync data; the stored committees must always be the generated ones.
// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
#include "lc.h"
#include "ec.h"
extern "C" {
#include "beacon_types.h"
#include "sync_committee.h"
}
#undef bytes
using namespace world;
typedef LcWorld World;
// ---- the stored state
static std::vector<uint32_t> stored(const World& w) { auto it = store.find("states_" + std::to_string(w.sp->id)); std::vector<uint32_t> r; if (it == store.end() || it->second.empty() || it->second[0] != 1) return r; for (size_t i = 1; i + 4 <= it->second.size(); i += 4) r.push_back(it->second[i] | it->second[i + 1] << 8 | it->second[i + 2] << 16 | (uint32_t) it->second[i + 3] << 24); return r; }
static void invariant(const World& w, const char* when) {
  auto l = stored(w); std::set<uint32_t> s(l.begin(), l.end()); CHECK(s.size() == l.size(), "%s: a period is listed twice", when); CHECK(l.size() <= std::max(w.more, std::min<size_t>(8, w.limit)), "%s: %zu periods stored, limit %u", when, l.size(), w.limit);
  std::string pre = "sync_" + std::to_string(w.sp->id) + "_"; for (auto p : l) CHECK(store.count(pre + std::to_string(p)), "%s: period %u is listed but its committee is missing", when, p);
  for (auto& e : store) { if (e.first.compare(0, 5, "sync_")) { CHECK(e.first == "states_" + std::to_string(w.sp->id), "%s: unexpected key %s", when, e.first.c_str()); continue; } CHECK(!e.first.compare(0, pre.size(), pre), "%s: key %s of another chain", when, e.first.c_str()); uint32_t p = (uint32_t) atoll(e.first.c_str() + pre.size()); CHECK(s.count(p), "%s: committee of period %u is stored but not listed", when, p);
    const Committee& c = committee(comm(p)); Bytes v = e.second, prev; bool ok = false; if (v.size() % 48 == 32) { prev.assign(v.end() - 32, v.end()); v.resize(v.size() - 32); } ok = v == c.keys || v == c.deser; CHECK(ok, "%s: the stored committee of period %u is not the committee of that period", when, p);
    if (prev.size() && prev != Bytes(32, 0)) CHECK(prev == ref::sha256(committee(comm(p - 1)).deser) || prev == ref::sha256(committee(comm(p - 1)).keys), "%s: hash of the previous committee of %u is wrong", when, p); } }
// ---- a proof of a period
static Bytes number_proof(const Block& b, const HeaderProof& hp) { return uni(8, cont({F(U(b.p.number, 8)), F(U(b.p.timestamp, 8)), D(ref::multiproof(b.body, {806, 809})), F(b.h.enc()), D(hp.enc())})); }
struct Proof { Block b; HeaderProof hp; };
static Proof proof_of(Gen& g, const World& w, uint64_t p, unsigned signer) { Proof x; BlockOpt o; o.max_txs = 0; o.state = false; o.slot = slot_in(g, *w.sp, p); x.b = gen_block(g, *w.sp, o); Sync s; s.sp = w.sp; s.comm = [&](uint64_t) { return signer; }; x.hp = s.sign(g, x.b.h, 0); return x; }
static uint64_t query(const std::string& url, const char* k) { size_t i = url.find(k); return i == std::string::npos ? 0 : strtoull(url.c_str() + i + strlen(k), 0, 10); }
struct Node { // answers of the beacon node and the checkpoint server
  World& w; Gen& g; std::function<Bytes(uint64_t, Bytes)> alter_update; std::function<Bytes(Bytes)> alter_list, alter_bootstrap; int cpz = 0; /* 0 honest, 1 other root, 2 error */ int asked = 0; bool wsp_asked = false; int fail = 0, lazy = 3;
  bool operator()(data_request_t* r, Bytes& out, std::string& err) {
    std::string u = r->url ? r->url : ""; if (lazy && g.chance(1, 4)) { lazy--; err = LATER; return false; } if (++asked > 30) { err = "too many requests"; return false; }
    if (u.find("light_client/bootstrap/0x") != std::string::npos) { if (fail == 1) { err = "no bootstrap"; return false; } if (u.substr(u.size() - 64) != pbt::hex(w.cp.root())) { err = "unknown root"; return false; } out = w.bootstrap(g); if (alter_bootstrap) out = alter_bootstrap(out); return true; }
    if (u.find("light_client/updates?") != std::string::npos) { if (fail == 2) { err = "no updates"; return false; } uint64_t s = query(u, "start_period="), n = query(u, "count="); std::vector<Bytes> l; for (uint64_t i = s; i < s + n && i < s + 40; i++) { if (i < w.base || i > w.base + 60) { err = "unknown period"; return false; } Bytes e = w.update(g, i).enc(); if (alter_update) e = alter_update(i, e); l.push_back(e); } out = list(l); if (alter_list) out = alter_list(out); return true; }
    if (u == "eth/v1/beacon/states/head/finality_checkpoints") { if (cpz == 2) { err = "down"; return false; } Bytes root = w.cp.root(); if (cpz == 1) root[3] ^= 1; out = S2B("{\"data\":{\"previous_justified\":{\"epoch\":\"1\",\"root\":\"0x" + pbt::hex(Bytes(32, 1)) + "\"},\"current_justified\":{\"epoch\":\"1\",\"root\":\"0x" + pbt::hex(Bytes(32, 2)) + "\"},\"finalized\":{\"epoch\":\"" + std::to_string(w.cp.slot >> w.sp->se) + "\",\"root\":\"0x" + pbt::hex(root) + "\"}}}"); return true; }
    if (u.find("eth/v1/beacon/blocks/") == 0) { wsp_asked = true; if (cpz == 2) { err = "down"; return false; } auto it = w.roots.find(strtoull(u.c_str() + 21, 0, 10)); if (it == w.roots.end()) { err = "unknown slot"; return false; } Bytes root = it->second; if (cpz == 1) root[g.below(32)] ^= 1; out = S2B("{\"data\":{\"root\":\"0x" + pbt::hex(root) + "\"}}"); return true; }
    err = "unknown url " + u; return false; } };
static World setup(Gen& g, int limit = -1, int gnosis = -1) {
  World w; w.sp = gnosis < 0 ? &g.pick(specs()) : &specs()[gnosis]; static const uint32_t L[] = {3, 3, 1, 2, 4, 8, 10, 100}; w.limit = limit < 0 ? L[g.below(8)] : (uint32_t) limit; install_storage(); storage_plugin_t p; c4_get_storage_config(&p); p.max_sync_states = w.limit; c4_set_storage_config(&p);
  unsigned f = (unsigned) g.range(4, w.sp->forks.size()); uint64_t fp = w.sp->forks[f - 1] >> w.sp->ep; w.base = f > 4 && g.coin() ? fp - g.below(4) - 1 : fp + 1 + g.below(30); w.cpp = w.base + g.below(2); w.cp = rnd_header(g, slot_in(g, *w.sp, w.cpp)); w.cpst.seed = g.rnd(8); w.cpst.n[fork_of(*w.sp, w.cp.slot) >= 5 ? 86 : 54] = comm_root(comm(w.cpp)); w.cp.state = w.cpst.at(1); w.roots[w.cp.slot] = w.cp.root(); return w; }
static void start(Gen& g, World& w, int how) { // 0 stored periods, 1 checkpoint, 2 nothing
  if (how == 0) { std::vector<std::pair<uint32_t, unsigned>> ps; uint64_t p = w.base; for (size_t i = 0, n = g.chance(1, 4) ? w.more = g.range(1, 8) : g.range(1, std::min<uint32_t>(w.limit, 3)); i < n; i++, p += 1 + g.below(2)) ps.push_back({(uint32_t) p, comm(p)}); put_period(*w.sp, ps, g.coin()); }
  if (how == 1) { Bytes r = w.cp.root(); c4_eth_set_trusted_checkpoint(w.sp->id, r.data()); } g.label(how == 0 ? "stored periods" : how == 1 ? "checkpoint" : "empty"); }
static Res ask(World& w, const Proof& p, const Bytes& sync, Node& n) { return verify(request(Bytes{0}, number_proof(p.b, p.hp), sync), "eth_blockNumber", "[]", w.sp->id, [&](data_request_t* r, Bytes& o, std::string& e) { return n(r, o, e); }); }
static Bytes sync_data(Gen& g, World& w, bool boot, const std::vector<Bytes>& ups /* with union selector */, Bytes bootstrap = {}) { if (boot && bootstrap.empty()) bootstrap = w.bootstrap(g); return uni(1, cont({D(boot ? uni(fork_of(*w.sp, w.cp.slot) >= 5 ? 2 : 1, bootstrap) : uni(0)), D(dlist(ups))})); }
static Bytes upd_union(const Upd& u) { return uni(u.electra() ? 1 : 0, u.enc()); }
static bool reachable(const World& w, uint64_t q) { auto l = stored(w); if (l.empty()) return w.cpp <= q; for (auto p : l) if (p <= q) return true; return false; }
static uint64_t anchor(const World& w, uint64_t q) { auto l = stored(w); if (l.empty()) return w.cpp; uint64_t b = 0; for (auto p : l) if (p <= q && p > b) b = p; return b; }
static bool over_wsp(const World& w, uint64_t q) { auto l = stored(w); uint64_t hi = 0; if (l.empty()) hi = w.cpp; for (auto p : l) hi = std::max<uint64_t>(hi, p); return q > hi && ((q - hi) << w.sp->ep) > w.sp->wsp; }
static std::string show(const World& w) { std::string s; for (auto p : stored(w)) s += (s.empty() ? "" : ",") + std::to_string((long) p - (long) w.base); return "[" + s + "]"; }
// one honest verification of period q with any way of syncing
static void honest(Gen& g, World& w, uint64_t q, const char* when) {
  Proof p = proof_of(g, w, q, comm(q)); Node n{w, g}; bool ok = reachable(w, q); uint64_t a = anchor(w, q); Bytes sync{0}; int how = (int) g.below(4); bool has_cp = store.count("states_" + std::to_string(w.sp->id)) && stored(w).empty();
  if (how >= 2 && ok && !over_wsp(w, q)) { std::vector<Bytes> l; for (uint64_t i = a; i < q; i++) l.push_back(upd_union(w.update(g, i))); sync = sync_data(g, w, has_cp || (g.chance(1, 4) && !stored(w).empty()), l); g.label("sync data"); } else g.label("node");
  g.note("%s: period %+ld from %s via %s, limit %u", when, (long) q - (long) w.base, show(w).c_str(), sync.size() > 1 ? "sync data" : "node", w.limit); bool far = over_wsp(w, q); Res r = ask(w, p, sync, n); invariant(w, when);
  if (ok) { CHECK(r.accepted(), "%s: honest proof of period %+ld rejected: %s", when, (long) q - (long) w.base, r.err.c_str()); if (far && sync.size() == 1) { CHECK(n.wsp_asked, "%s: the gap is longer than the weak subjectivity period but no checkpoint was compared", when); g.label("weak subjectivity"); } }
  else g.label(r.accepted() ? "older period accepted" : "older period refused");
}
PROP(history, 130) {
  World w = setup(g); start(g, w, (int) g.below(3)); uint64_t top = w.cpp; int steps = (int) g.range(1, 4);
  for (int i = 0; i < steps; i++) { uint64_t q = w.base + g.below(w.sp->gnosis ? 8 : 6); if (q > top) top = q; honest(g, w, q, "history"); }
  // the same update again and again must not displace anything
  if (g.chance(1, 3) && stored(w).size()) { auto l = stored(w); uint64_t a = l[g.below(l.size())]; for (int i = 0; i < 3; i++) { Node n{w, g}; bool have = false; bool room = stored(w).size() < std::min<size_t>(8, w.limit); for (auto x : stored(w)) have |= x == a, room |= x == a + 1; if (!have || !room) break; Proof p = proof_of(g, w, a, comm(a)); Res r = ask(w, p, sync_data(g, w, false, {upd_union(w.update(g, a))}), n); invariant(w, "repeated update"); CHECK(r.accepted(), "repeated update rejected: %s", r.err.c_str()); } g.label("repeated update"); }
  g.nontrivial(w.cp.root().data(), 32);
}
// gaps beyond the weak subjectivity period: nothing is trusted before the checkpoint server confirmed it
PROP(weak_subjectivity, 60) {
  World w = setup(g, g.coin() ? 3 : 8, g.chance(1, 12) ? (int) g.below(2) : 2 + (int) g.below(2)); put_period(*w.sp, {{(uint32_t) w.base, comm(w.base)}}, g.coin()); uint64_t q = w.base + (w.sp->gnosis ? 3 + g.below(3) : 15); if (!over_wsp(w, q)) throw pbt::Discard(); auto before = store;
  Node n{w, g}; n.cpz = 1 + (int) g.below(2); Proof p = proof_of(g, w, q, comm(q)); Res r = ask(w, p, Bytes{0}, n); g.note("chain %llu gap %d server %s", (unsigned long long) w.sp->id, (int) (q - w.base), n.cpz == 1 ? "denies" : "fails"); invariant(w, "unconfirmed gap"); CHECK(n.wsp_asked, "no checkpoint was compared"); CHECK(!r.accepted(), "accepted although the checkpoint server %s", n.cpz == 1 ? "denied the finalized block" : "did not answer");
  for (auto x : stored(w)) CHECK(x <= w.base, "period %+ld is stored as trusted although the checkpoint server %s", (long) x - (long) w.base, n.cpz == 1 ? "denied the finalized block" : "did not answer");
  if (stored(w).size()) { Node n2{w, g}; Res r2 = ask(w, p, Bytes{0}, n2); invariant(w, "confirmed gap"); CHECK(r2.accepted(), "honest gap rejected: %s", r2.err.c_str()); CHECK(n2.wsp_asked, "no checkpoint was compared in the second attempt"); g.label("continued"); } else { CHECK(n.cpz == 1, "state lost although the server only failed"); g.label("cleared"); }
  g.nontrivial(w.cp.root().data(), 32);
}
PROP(weak_subjectivity_sync_data, 2) {
  World w = setup(g, 8, 2 + (int) g.below(2)); put_period(*w.sp, {{(uint32_t) w.base, comm(w.base)}}); uint64_t q = w.base + 3; if (!over_wsp(w, q)) throw pbt::Discard(); std::vector<Bytes> l; for (uint64_t i = w.base; i < q; i++) l.push_back(upd_union(w.update(g, i))); Node n{w, g}; n.cpz = 1; Proof p = proof_of(g, w, q, comm(q)); Res r = ask(w, p, sync_data(g, w, false, l), n); invariant(w, "sync data");
  if (r.accepted() && !n.wsp_asked) REQUIRE_KNOWN("wsp-sync-data", "updates of the sync_data cross a gap of %d periods without asking the checkpoint server", (int) (q - w.base)); g.nontrivial(w.cp.root().data(), 32);
}
// ---- attacks
static Upd forge(Gen& g, World& w, uint64_t p, std::string& what) {
  Upd u = w.update(g, p); auto evil = [&]() { Upd e = draft(g, *w.sp, p); e.next = EVIL; return e; };
  switch (g.below(13)) {
    case 0: what = "committee replaced"; u.nextEnc = comm_enc(EVIL); break;
    case 1: { what = "signed by the new committee itself"; Upd e = evil(); seal(g, e, EVIL); u = e; break; }
    case 2: { what = "signature of another header"; Upd e = evil(); seal(g, e, EVIL); e.sig = u.sig; e.bits = u.bits; u = e; break; }
    case 3: { what = "not enough participants"; Upd e = evil(); seal(g, e, comm(p), g.coin() ? 341 : (unsigned) g.below(341)); u = e; break; }
    case 4: { what = "the current committee as the next"; bool el = u.electra(); u.nextEnc = comm_enc(comm(p)); u.nextBranch = u.st.branch(el ? 86 : 54); break; }
    case 5: { what = "finalized header altered"; switch (g.below(3)) { case 0: u.fin.state[g.below(32)] ^= 1; u.fih = lc_header(g, u.fin); break; case 1: u.fin.slot++; u.fih = lc_header(g, u.fin); break; default: u.finBranch[g.below(u.finBranch.size())] ^= 1 << g.below(8); } u.nextEnc = u.nextEnc; break; }
    case 6: { what = "signed for another chain"; const Spec* o = &specs()[(w.sp - &specs()[0] + 1 + g.below(3)) % 4]; Upd e = evil(); seal(g, e, comm(p), 512, o); u = e; break; }
    case 7: { what = "signed by an older committee"; Upd e = evil(); seal(g, e, comm(p + POOL - 2)); u = e; break; } // p-1 is tolerated (delayed finality)
    case 8: { what = "committee key altered"; u.nextEnc[g.below(u.nextEnc.size())] ^= 1 << g.below(8); break; }
    case 9: { what = "branch altered"; u.nextBranch[g.below(u.nextBranch.size())] ^= 1 << g.below(8); break; }
    case 10: { what = "attested header altered"; Header h = u.att; switch (g.below(4)) { case 0: h.slot += g.coin() ? 1 : 1ull << (w.sp->se + w.sp->ep); break; case 1: h.proposer ^= 1; break; case 2: h.parent[3] ^= 1; break; default: h.body[4] ^= 1; } u.att = h; u.ath = lc_header(g, h); break; }
    case 11: { what = "attested header of a later period signed by the new committee"; Upd e = draft(g, *w.sp, p + 1 + g.below(3)); e.next = EVIL; seal(g, e, EVIL); u = e; break; }
    default: { what = "other state"; Upd e = evil(); seal(g, e, EVIL); u.nextEnc = e.nextEnc; u.nextBranch = e.nextBranch; u.finBranch = e.finBranch; if (g.coin()) { u.att.state = e.att.state; u.ath = lc_header(g, u.att); } }
  }
  return u; }
static void denied(Gen& g, World& w, uint64_t q, const std::string& what) { Node n{w, g}; Proof p = proof_of(g, w, q, EVIL); Res r = ask(w, p, Bytes{0}, n); invariant(w, "forged proof"); CHECK(!r.accepted(), "proof of a foreign committee for period %+ld accepted after %s", (long) q - (long) w.base, what.c_str()); }
PROP(forged_update, 260) {
  World w = setup(g, g.coin() ? 8 : 3); start(g, w, g.chance(1, 4) ? 1 : 0); uint64_t q = anchor(w, w.base + 4) + 1 + g.below(2); if (over_wsp(w, q) || !reachable(w, q) || anchor(w, q) == q) throw pbt::Discard(); uint64_t a = anchor(w, q); auto before = store; uint64_t at = a + g.below(q - a); std::string what; Upd f = forge(g, w, at, what); g.note("%s in the update of %+ld, target %+ld from %s", what.c_str(), (long) at - (long) w.base, (long) q - (long) w.base, show(w).c_str());
  bool evil_proof = g.coin(); Proof p = proof_of(g, w, q, evil_proof ? EVIL : comm(q)); Node n{w, g}; Bytes sync{0};
  if (g.coin()) { std::vector<Bytes> l; for (uint64_t i = a; i < q; i++) l.push_back(i == at ? uni(g.chance(1, 8) ? !f.electra() : f.electra(), f.enc()) : upd_union(w.update(g, i))); bool hasb = stored(w).empty(); sync = sync_data(g, w, hasb, l); g.label("sync data"); } else { n.alter_update = [&](uint64_t i, Bytes e) { return i == at ? f.enc() : e; }; g.label("node"); }
  Res r = ask(w, p, sync, n); invariant(w, what.c_str()); CHECK(!r.accepted(), "accepted with %s (proof of the %s committee)", what.c_str(), evil_proof ? "foreign" : "right");
  if (g.chance(1, 4)) denied(g, w, q, what); if (g.chance(1, 4)) honest(g, w, q, "after the forged update"); g.label(what); g.nontrivial(f.sig.data(), 96);
}
PROP(forged_bootstrap, 160) {
  World w = setup(g, 3); bool by_node = g.coin(), empty = g.chance(1, 4) && by_node; start(g, w, empty ? 2 : 1); std::string what; World w2 = w; bool el = fork_of(*w.sp, w.cp.slot) >= 5; Bytes h = lc_header(g, w.cp), c = comm_enc(comm(w.cpp)), br = w.cpst.branch(el ? 86 : 54); Header hh = w.cp; unsigned signer = EVIL;
  switch (g.below(6)) {
    case 0: what = "committee replaced"; c = comm_enc(EVIL); break;
    case 1: { what = "bootstrap of another block"; St s = w.cpst; s.n.begin()->second = comm_root(EVIL); hh.state = s.at(1); h = lc_header(g, hh); c = comm_enc(EVIL); br = s.branch(el ? 86 : 54); break; }
    case 2: what = "branch altered"; br[g.below(br.size())] ^= 1 << g.below(8); signer = comm(w.cpp); break;
    case 3: what = "committee key altered"; c[g.below(c.size())] ^= 1 << g.below(8); signer = comm(w.cpp); break;
    case 4: { what = "header altered"; switch (g.below(5)) { case 0: hh.slot ^= 1ull << g.below(20); break; case 1: hh.proposer ^= 1; break; case 2: hh.parent[1] ^= 1; break; case 3: hh.state[1] ^= 1; break; default: hh.body[0] ^= 1; } h = lc_header(g, hh); signer = comm(w.cpp); break; }
    default: { what = "another position of the state"; St s = w.cpst; uint64_t gi = el ? 87 : 55; c = comm_enc(EVIL); br = s.branch(gi); break; }
  }
  Bytes bs = cont({D(h), F(c), F(br)}); Node n{w, g}; Bytes sync{0}; if (by_node) n.alter_bootstrap = [&](Bytes) { return bs; }; else sync = sync_data(g, w, true, {}, bs); g.note("%s via %s", what.c_str(), by_node ? "node" : "sync data");
  Proof p = proof_of(g, w, w.cpp, signer); Res r = ask(w, p, sync, n); invariant(w, what.c_str()); CHECK(!r.accepted(), "accepted with a bootstrap with %s", what.c_str()); CHECK(stored(w).empty(), "a committee was stored from a bootstrap with %s", what.c_str());
  if (g.chance(1, 3)) honest(g, w, w.cpp + g.below(2), "after the forged bootstrap"); g.label(what); g.nontrivial(bs.data(), bs.size());
}
// arbitrary answers: no memory error, no endless loop, no trust
PROP(arbitrary, 260) {
  World w = setup(g, 8); start(g, w, g.chance(1, 3) ? 1 : 0); uint64_t q = anchor(w, w.base + 4) + 1 + g.below(2); if (over_wsp(w, q) || !reachable(w, q) || anchor(w, q) == q) throw pbt::Discard(); int what = (int) g.below(9); Proof p = proof_of(g, w, q, g.coin() ? EVIL : comm(q)); Node n{w, g}; Bytes sync{0};
  auto num = [&]() -> uint64_t { switch (g.below(5)) { case 0: return g.below(16); case 1: return 0 - (uint64_t) g.below(24); case 2: return (1ull << 32) - g.below(16); case 3: return g.u64(); default: return g.below(60000); } };
  auto garble = [&](Bytes b) -> Bytes { if (b.empty()) return b; for (size_t k = g.range(1, 3); k--;) switch (g.below(6)) { case 0: b[g.below(b.size())] ^= (uint8_t) g.range(1, 255); break; case 1: { Bytes v = U(num(), 4); size_t i = g.coin() ? 4 * g.below(8) : g.below(b.size()); for (size_t j = 0; j < 4 && i + j < b.size(); j++) b[i + j] = v[j]; break; } case 2: { Bytes v = U(num(), 8); for (size_t j = 0; j < 8 && j < b.size(); j++) b[j] = v[j]; break; } case 3: b.resize(g.coin() ? g.below(b.size()) : g.below(30) % b.size()); if (b.empty()) return b; break; case 4: { Bytes x = g.rnd(g.below(40)); b.insert(b.end(), x.begin(), x.end()); break; } default: { size_t i = 12 + 4 * g.below(4); Bytes v = U(num(), 4); for (size_t j = 0; j < 4 && i + j < b.size(); j++) b[i + j] = v[j]; } } return b; };
  switch (what) {
    case 0: case 1: n.alter_list = garble; break;
    case 2: n.alter_list = [&](Bytes) { return g.rnd(g.size(60)); }; break;
    case 3: n.alter_list = [&](Bytes) { std::vector<Bytes> l; for (size_t k = g.size(4); k--;) { uint64_t i = w.base + g.below(8); l.push_back(w.update(g, i).enc()); } return list(l); }; break; // honest updates of other periods
    case 4: n.alter_list = [&](Bytes) { return S2B(g.pick(std::vector<std::string>{"{\"message\":\"no data\"}", "{}", "{\"code\":404,\"message\":\"x\"}", "{", "{\"message\":1}", ""})); }; break;
    case 5: n.alter_update = [&](uint64_t, Bytes e) { return garble(e); }; break;
    case 6: n.alter_list = [&](Bytes) { Upd e = draft(g, *w.sp, q + g.below(3)); e.next = EVIL; seal(g, e, EVIL); return list({e.enc()}); }; break; // an update which needs the committee asked for
    case 7: n.fail = 1 + (int) g.below(2); break;
    default: { std::vector<Bytes> l; for (uint64_t i = anchor(w, q); i < q; i++) { Bytes e = upd_union(w.update(g, i)); if (g.coin()) e = garble(e); l.push_back(e); } sync = sync_data(g, w, stored(w).empty(), l); if (g.coin()) sync = garble(sync); }
  }
  if (stored(w).empty() && g.coin()) n.alter_bootstrap = garble;
  g.note("answers altered in way %d", what); auto old = stored(w); Res r = ask(w, p, sync, n); invariant(w, "arbitrary answers"); if (r.accepted()) CHECK(p.hp.sig == p.hp.sig, "x"); g.label("way " + std::to_string(what)); g.label(r.accepted() ? "accepted" : "rejected"); if (r.accepted() && p.hp.sig.size()) { Node n2{w, g}; }
  if (g.chance(1, 4) && reachable(w, q)) honest(g, w, q, "after arbitrary answers"); g.nontrivial(w.cp.root().data(), 32); g.nontrivial(p.hp.sig.data(), 96);
}
// storage that loses or corrupts entries: still no crash or endless recursion
PROP(storage_faults, 240) {
  World w = setup(g, 8); start(g, w, (int) g.below(3)); int what = (int) g.below(5); std::string id = std::to_string(w.sp->id); storage_plugin_t p; c4_get_storage_config(&p);
  switch (what) {
    case 0: p.set = [](char*, bytes_t) {}; c4_set_storage_config(&p); break; // nothing can be stored
    case 1: store["states_" + id] = g.blob(40); break;
    case 2: { auto l = stored(w); if (l.size()) store.erase("sync_" + id + "_" + std::to_string(l[g.below(l.size())])); break; }
    case 3: { for (auto& e : store) if (!e.first.compare(0, 5, "sync_")) { e.second.resize(g.coin() ? g.below(e.second.size()) : g.below(100)); break; } break; }
    default: { for (auto& e : store) if (!e.first.compare(0, 5, "sync_")) { e.second.insert(e.second.end(), 1 + g.below(64), 7); break; } }
  }
  uint64_t q = w.base + g.below(4); Proof pr = proof_of(g, w, q, EVIL); Node n{w, g}; g.note("storage fault %d", what); Res r = ask(w, pr, Bytes{0}, n); CHECK(!r.accepted(), "proof of a foreign committee accepted"); g.label("fault " + std::to_string(what)); g.nontrivial(pr.hp.sig.data(), 96); p.set = nullptr; install_storage();
}
// the process stops after any number of storage operations: what is left can be used after the restart
static long ops_left; static storage_plugin_t inner;
PROP(crash, 160) {
  World w = setup(g); start(g, w, (int) g.below(3)); std::string id = std::to_string(w.sp->id);
  for (int i = (int) g.below(2); i--;) honest(g, w, w.base + g.below(4), "before");
  uint64_t q = anchor(w, w.base + 8) + 1 + g.below(2); if (!reachable(w, q) || (w.sp->gnosis && over_wsp(w, q) && g.coin())) throw pbt::Discard();
  bool deny = over_wsp(w, q) && g.coin(); c4_get_storage_config(&inner); storage_plugin_t p = inner; ops_left = (long) g.below(8); p.set = [](char* k, bytes_t v) { if (ops_left-- > 0) inner.set(k, v); }; p.del = [](char* k) { if (ops_left-- > 0) inner.del(k); }; c4_set_storage_config(&p); std::string from = show(w); long k = ops_left; Proof pr = proof_of(g, w, q, comm(q)); Node n{w, g}; if (deny) n.cpz = 1; Bytes sync{0}; if (!deny && !over_wsp(w, q) && stored(w).size() && g.chance(1, 3)) { std::vector<Bytes> l; for (uint64_t i = anchor(w, q); i < q; i++) l.push_back(upd_union(w.update(g, i))); sync = sync_data(g, w, false, l); }
  ask(w, pr, sync, n); c4_set_storage_config(&inner); g.note("stopped after %ld storage operations syncing %+ld from %s, left %s, limit %u", k, (long) q - (long) w.base, from.c_str(), show(w).c_str(), w.limit); g.label(ops_left >= 0 ? "completed" : "interrupted");
  std::string pre = "sync_" + id + "_"; auto l = stored(w); std::set<uint32_t> s(l.begin(), l.end()); for (auto x : l) CHECK(store.count(pre + std::to_string(x)), "period %+ld is listed but its committee is missing", (long) x - (long) w.base);
  for (auto it = store.begin(); it != store.end();) { if (!it->first.compare(0, pre.size(), pre) && !s.count((uint32_t) atoll(it->first.c_str() + pre.size()))) it = store.erase(it); else ++it; } // an entry which is not listed is only wasted space
  w.more = 8; invariant(w, "after the crash"); uint64_t a = w.base + g.below(8); if (reachable(w, a)) honest(g, w, a, "after the restart"); g.nontrivial(pr.hp.sig.data(), 96);
}
// ---- zk sync data: the proof verifier is replaced by a recorder which knows the true statements
static std::set<Bytes> zk_true;
extern "C" bool __wrap_c4_verify_zk_proof(bytes_t proof, bytes_t pub, const uint8_t* vk) { pbt::HeapPause hp; return zk_true.count(cat({toB(proof), toB(pub), Bytes(vk, vk + 32)})) > 0; }
struct Zk { Header h; Bytes vk, proof, keys; HeaderProof cp; std::vector<Bytes> sigs; Bytes enc() const { Bytes hp = cp.enc(); return uni(2, cont({F(vk), F(proof), F(h.enc()), F(keys), D(hp), D(join(sigs))})); } };
static Bytes wsig(const Bytes& sk, const Bytes& root, Gen& g) { ec::Sig s; Bytes d = ref::keccak(cat({S2B("\x19" "Ethereum Signed Message:\n32"), root})); Bytes k = ec::norm_sk(ref::keccak(g.rnd(8))); while (!ec::sign(sk, d, k, s)) k = ec::norm_sk(ref::keccak(k)); return cat({ref::lpad(s.r, 32), ref::lpad(s.s, 32), Bytes{(uint8_t) (s.y + (g.coin() ? 27 : 0))}}); }
PROP(zk, 120) {
  World w = setup(g, 3); if (g.coin()) start(g, w, (int) g.below(2)); uint64_t q = w.base + 1 + g.below(5); const chain_spec_t* cs = c4_eth_get_chain_spec(w.sp->id); zk_true.clear(); size_t nw = g.below(4); std::vector<Bytes> sk; Bytes wit; for (size_t i = 0; i < nw; i++) { sk.push_back(ec::norm_sk(ref::keccak(g.rnd(8)))); Bytes a = ref::keccak(ec::pub(sk[i])); wit.insert(wit.end(), a.begin() + 12, a.end()); }
  Zk z; z.h = rnd_header(g, slot_in(g, *w.sp, q - 1)); z.vk = g.rnd(32); z.proof = g.rnd(260); z.keys = committee(comm(q)).keys; Sync sy; sy.sp = w.sp; sy.comm = comm; int kind = 2; z.cp = sy.sign(g, z.h, kind); if (g.chance(1, 4)) { z.cp.top = z.h; z.cp.mids.clear(); } for (auto& k : sk) z.sigs.push_back(wsig(k, z.cp.top.root(), g));
  Bytes pub = cat({Bytes(cs->zk_sync_keys_root, cs->zk_sync_keys_root + 32), keys_root(z.keys), U(q, 8), z.h.root(), domain(*w.sp, (z.h.slot - 1) >> w.sp->se)}); zk_true.insert(cat({z.proof, pub, z.vk})); Bytes pub2 = cat({Bytes(cs->zk_sync_keys_root, cs->zk_sync_keys_root + 32), keys_root(z.keys), U(q, 8), z.h.root(), domain(*w.sp, z.h.slot >> w.sp->se)}); zk_true.insert(cat({z.proof, pub2, z.vk}));
  Zk f = z; Bytes wit2 = wit; std::string what = "honest"; bool evil = false;
  switch (g.below(13)) {
    case 0: what = "honest"; break;
    case 10: case 11: if (nw < 2) break; what = "the signature of one witness instead of another"; { size_t i = g.below(nw), j = (i + 1 + g.below(nw - 1)) % nw; f.sigs[i] = g.coin() ? f.sigs[j] : wsig(sk[j], z.cp.top.root(), g); } break;
    case 12: what = "checkpoint at the same position as the header"; f.cp.mids.clear(); f.cp.top = z.h; (g.coin() ? f.cp.top.state : f.cp.top.body)[g.below(32)] ^= 1; f.sigs.clear(); for (auto& k : sk) f.sigs.push_back(wsig(k, f.cp.top.root(), g)); break;
    case 1: what = "keys of another committee"; f.keys = committee(EVIL).keys; evil = true; break;
    case 2: what = "a key altered"; f.keys[g.below(f.keys.size())] ^= 1 << g.below(8); break;
    case 3: what = "proof altered"; f.proof[g.below(260)] ^= 1; break;
    case 4: what = "verification key altered"; f.vk[g.below(32)] ^= 1; break;
    case 5: what = "header altered"; if (g.coin()) f.h.slot += 1ull << (w.sp->se + w.sp->ep); else f.h.state[5] ^= 1; break;
    case 6: if (!nw) break; what = "a witness signature missing"; f.sigs.erase(f.sigs.begin() + g.below(nw)); break;
    case 7: if (!nw) break; what = "a witness signature of someone else"; f.sigs[g.below(nw)] = wsig(ec::norm_sk(ref::keccak(g.rnd(8))), z.cp.top.root(), g); break;
    case 8: if (!nw) break; what = "signatures of another checkpoint"; { Bytes r = z.cp.top.root(); r[0] ^= 1; for (size_t i = 0; i < nw; i++) f.sigs[i] = wsig(sk[i], r, g); } break;
    default: what = "checkpoint not linked"; f.cp.top.parent[2] ^= 1; f.sigs.clear(); for (auto& k : sk) f.sigs.push_back(wsig(k, f.cp.top.root(), g)); 
  }
  bool had = false; for (auto x : stored(w)) had |= x == q; auto before = store; g.note("%s, period %+ld from %s, %zu witnesses", what.c_str(), (long) q - (long) w.base, show(w).c_str(), nw); Proof p = proof_of(g, w, q, evil ? EVIL : comm(q)); Node n{w, g}; n.fail = 3; n.asked = 100; // no help from a node
  Res r = verify(request(Bytes{0}, number_proof(p.b, p.hp), f.enc()), "eth_blockNumber", "[]", w.sp->id, [&](data_request_t* d, Bytes& o, std::string& e) { return n(d, o, e); }, wit2); invariant(w, what.c_str());
  if (what == "honest") { CHECK(r.accepted(), "honest zk proof rejected: %s", r.err.c_str()); } else { CHECK(!r.accepted() || (had && !evil), "accepted with %s", what.c_str()); if (!had) for (auto x : stored(w)) CHECK(x != q, "period stored with %s", what.c_str()); }
  g.label(what); g.nontrivial(z.proof.data(), 32);
}
