// C07: trust in beacon headers: supermajority signature of the right committee, header chains and historic proofs.
#include "world.h"
using namespace world; using ref::NP;
struct Setup { const Spec* sp; Block b; HeaderProof hp; Sync sy; int kind; unsigned n; uint64_t sslot; };
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
static Bytes number_proof(const Block& b, const HeaderProof& hp) { return uni(8, cont({F(U(b.p.number, 8)), F(U(b.p.timestamp, 8)), D(ref::multiproof(b.body, {806, 809})), F(b.h.enc()), D(hp.enc())})); }
static Setup setup(Gen& g, int kind = -1, unsigned n = 0) {
  Setup s; s.sp = &g.pick(specs()); BlockOpt o; o.max_txs = 0; o.state = false; s.b = gen_block(g, *s.sp, o); s.sy.sp = s.sp; s.sy.comm = comm; s.kind = kind < 0 ? (int) g.below(3) : kind; s.n = n ? n : (unsigned) (g.coin() ? 512 : g.chance(1, 3) ? 342 : g.range(342, 512));
  s.hp = s.sy.sign(g, s.b.h, s.kind, s.n); s.sslot = s.kind ? s.hp.top.slot : s.b.h.slot; uint64_t p = period_of(*s.sp, s.sslot + 1); install_storage(); std::vector<std::pair<uint32_t, unsigned>> ps; for (uint64_t i = p - 3; i <= p + 1; i++) ps.push_back({(uint32_t) i, comm(i)}); put_period(*s.sp, ps, !g.chance(1, 20));
  g.note("chain %llu slot %llu kind %d participants %u", (unsigned long long) s.sp->id, (unsigned long long) s.b.h.slot, s.kind, s.n); return s;
}
static Res run(const Setup& s, const Block& b, const HeaderProof& hp, uint64_t chain = 0) { return verify(request(Bytes{0}, number_proof(b, hp)), "eth_blockNumber", "[]", chain ? chain : s.sp->id); }
static void honest(Gen& g, const Setup& s) { Res r = run(s, s.b, s.hp); CHECK(r.accepted(), "honest header proof (kind %d, %u participants) rejected: %s", s.kind, s.n, r.err.c_str()); Bytes v = r.data; v.resize(8, 0); CHECK(v == U(s.b.p.number, 8), "block number %s reported", pbt::hex(r.data).c_str()); }
PROP(honest, 120) { Setup s = setup(g); honest(g, s); g.label("kind" + std::to_string(s.kind)); g.label("chain" + std::to_string(s.sp->id)); g.label("fork" + std::to_string(fork_of(*s.sp, s.sslot))); g.nontrivial(s.b.h.root().data(), 32); }
static void resign(const Setup& s, HeaderProof& hp, const Header& signed_h, unsigned c, uint64_t epoch, const Spec* sp = nullptr) { hp.sig = bls_sign(committee(c), hp.bits, signing_root(signed_h.root(), domain(sp ? *sp : *s.sp, epoch))); }
// signatures that must not count
PROP(signature, 240) {
  Setup s = setup(g); HeaderProof hp = s.hp; Header sh = s.kind ? hp.top : s.b.h; uint64_t per = period_of(*s.sp, sh.slot + 1), ep = sh.slot >> s.sp->se; const char* what = "";
  switch (g.below(9)) {
    case 0: { unsigned n = g.coin() ? 341 : (unsigned) g.below(342); what = "less than two thirds"; hp.bits = gen_bits(g, n); resign(s, hp, sh, comm(per), ep); g.note("%u participants", n); break; }
    case 1: { what = "participation bit changed"; unsigned i = (unsigned) g.below(512); hp.bits[i / 8] ^= 1 << (i % 8); break; }
    case 2: { what = "signature changed"; hp.sig[g.below(96)] ^= (uint8_t) g.range(1, 255); break; }
    case 3: { what = "committee of another period"; unsigned c = comm(g.coin() ? per + 1 : per - 2); resign(s, hp, sh, c, ep); break; } // per-1 is tolerated at delayed finality
    case 4: { what = "domain of another fork"; unsigned f = fork_of(*s.sp, sh.slot); unsigned o = (unsigned) g.below(s.sp->forks.size() + 1); if (o == f) o = f - 1; uint64_t e = o ? s.sp->forks[o - 1] : 0; resign(s, hp, sh, comm(per), e); break; }
    case 5: { what = "domain of another chain"; const Spec* o = &g.pick(specs()); if (o == s.sp) o = &specs()[(o - &specs()[0] + 1) % 4]; resign(s, hp, sh, comm(per), ep, o); break; }
    case 6: { what = "other message signed"; Header x = sh; switch (g.below(5)) { case 0: x.slot ^= 1; break; case 1: x.proposer++; break; case 2: x.parent[g.below(32)] ^= 1; break; case 3: x.state[g.below(32)] ^= 1; break; default: x.body[g.below(32)] ^= 0x80; } resign(s, hp, x, comm(per), ep); break; }
    case 7: { what = "unused or empty signature"; hp.bits = Bytes(64, 0); hp.sig = Bytes(96, 0); if (g.coin()) hp.sig[0] = 0xc0; break; }
    default: { what = "infinity signature"; hp.sig = Bytes(96, 0); hp.sig[0] = 0xc0; break; }
  }
  g.note("%s", what); Res r = run(s, s.b, hp); CHECK(!r.accepted(), "header accepted with %s", what);
  honest(g, s); // the rejected attempt must not spoil the honest one
  g.label(what); g.nontrivial(hp.sig.data(), 96);
}
// content or links altered after signing
PROP(link, 300) {
  Setup s = setup(g); HeaderProof hp = s.hp; Block b = s.b; const char* what = ""; uint64_t chain = 0; bool first = g.coin(); if (first) honest(g, s);
  auto alter = [&](Header& h, bool parent) { switch (g.below(parent ? 5 : 4)) { case 0: h.slot += g.coin() ? 1 : (uint64_t) 1 << g.below(20); break; case 1: h.proposer ^= 1ull << g.below(64); break; case 2: h.state[g.below(32)] ^= 1 << g.below(8); break; case 3: h.body[g.below(32)] ^= 1 << g.below(8); break; default: h.parent[g.below(32)] ^= 1 << g.below(8); } };
  switch (g.below(s.kind == 0 ? 3 : 9)) {
    case 0: what = "header altered"; alter(b.h, true); break;
    case 1: { what = "block content altered"; if (g.coin()) b.p.number ^= 1ull << g.below(64); else b.p.timestamp ^= 1ull << g.below(64); break; }
    case 2: { what = "another chain"; for (auto& x : specs()) if (x.id != s.sp->id) chain = x.id; const Spec* t = nullptr; for (auto& x : specs()) if (x.id == chain) t = &x; std::vector<std::pair<uint32_t, unsigned>> ps; uint64_t p = period_of(*t, s.sslot + 1); for (uint64_t i = p - 1; i <= p; i++) ps.push_back({(uint32_t) i, comm(i)}); put_period(*t, ps); break; }
    case 3: what = "signed header altered"; alter(hp.top, true); break;
    case 4: { what = "link altered"; if (s.kind == 2) { if (hp.mids.empty()) hp.mids.push_back(s.b.h); alter(hp.mids[g.below(hp.mids.size())], false); } else hp.proof[g.below(hp.proof.size())][g.below(32)] ^= 1 << g.below(8); break; }
    case 5: { what = "link dropped"; if (s.kind == 2) { if (hp.mids.empty()) throw pbt::Discard(); hp.mids.erase(hp.mids.begin() + g.below(hp.mids.size())); } else hp.proof.erase(hp.proof.begin() + (g.coin() ? hp.proof.size() - 1 : g.below(hp.proof.size()))); break; }
    case 6: { what = "link added"; if (s.kind == 2) { Header m = s.b.h; m.slot++; hp.mids.insert(hp.mids.begin() + g.below(hp.mids.size() + 1), m); } else hp.proof.insert(g.coin() ? hp.proof.end() : hp.proof.begin() + g.below(hp.proof.size()), g.rnd(32)); break; }
    case 7: { what = "gindex changed"; if (s.kind != 1) throw pbt::Discard(); hp.gindex ^= 1ull << g.below(46); break; }
    default: { what = "signed header used without link"; hp.kind = 0; } // signature of the descendant given for the header itself
  }
  g.note("%s", what); Res r = run(s, b, hp, chain); CHECK(!r.accepted(), "accepted with %s (kind %d)", what, s.kind); g.label(what); g.nontrivial(hp.sig.data(), 96);
}
// historic proofs: the position must be an entry of historical_summaries[].block_summary_root, anything else in a
// beacon state may be chosen by third parties (deposits, graffiti, state roots, ...)
PROP(historic_position, 120) {
  Setup s = setup(g, 1); HeaderProof hp = s.hp; uint64_t gi; const char* what; bool el = fork_of(*s.sp, hp.top.slot) >= 5; unsigned pre = el ? 64 : 32;
  switch (g.below(6)) {
    case 0: what = "state_summary_root"; gi = hp.gindex ^ (1ull << 13); break;
    case 1: { what = "other state field"; uint64_t f = g.below(27); if (f == 5) f = 4; gi = (pre + f); unsigned d = (unsigned) g.below(30); for (unsigned i = 0; i < d; i++) gi = gi << 1 | g.below(2); break; }
    case 2: { what = "list length"; gi = hp.gindex | (1ull << 38); break; }
    case 3: { what = "layout of another fork"; gi = hp.gindex; uint64_t rest = gi & ((1ull << 39) - 1); gi = ((uint64_t) (el ? 59 : 91) << 39) | rest; break; }
    case 4: { what = "deeper than a block root"; gi = hp.gindex << 1 | g.below(2); break; }
    default: { what = "arbitrary position"; unsigned d = (unsigned) g.range(0, 60); gi = 1; for (unsigned i = 0; i < d; i++) gi = gi << 1 | g.below(2); if ((gi >> 38) == (uint64_t) (pre + 27) << 1 || (gi >> 13) == (uint64_t) (pre + 5)) throw pbt::Discard(); }
  }
  hp.gindex = gi; hp.proof.clear(); Bytes c = s.b.h.root(); for (uint64_t i = gi; i > 1; i >>= 1) { Bytes x = g.rnd(32); hp.proof.push_back(x); c = i & 1 ? ref::sha2(x, c) : ref::sha2(c, x); } if (gi <= 1) hp.proof.clear();
  hp.top.state = c; resign(s, hp, hp.top, comm(period_of(*s.sp, hp.top.slot + 1)), hp.top.slot >> s.sp->se); g.note("%s gindex %llx", what, (unsigned long long) gi);
  Res r = run(s, s.b, hp); CHECK(!r.accepted(), "header accepted through %s (gindex 0x%llx of the state)", what, (unsigned long long) gi); g.label(what); g.nontrivial(gi);
}
