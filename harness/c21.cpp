// C21: prover cache histories of several contexts under a virtual clock.
#include "cut.h"
#include "ref.h"
#include <sys/time.h>
extern "C" {
#include "prover.h"
}
#undef bytes
static uint64_t g_now = 1000000;
extern "C" int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = g_now / 1000; tv->tv_usec = (g_now % 1000) * 1000; return 0; }
struct Val { uint64_t magic; int id; };
struct Info { Bytes key; int freed = 0; uint32_t size; uint64_t expiry = 0; bool global = false, invalid = false; int users = 0; };
static std::vector<Info> vals; static std::string g_err;
static void free_val(void* p) { Val* v = (Val*) p; if (v->magic != 0x1234567) { g_err = "free called with a corrupt value"; return; } Info& i = vals[v->id]; i.freed++; if (i.users > 0 && g_err.empty()) g_err = "value " + std::to_string(v->id) + " freed while " + std::to_string(i.users) + " contexts use it"; free(v); }
struct Local { int id; bool global; uint64_t ttl; };
struct Ctx { prover_ctx_t* c; std::vector<std::pair<int, Local>> l; /* key index, newest last */ bool worker; };
PROP(history, 12000) {
  c4_prover_cache_cleanup(~0ull, 0); vals.clear(); g_err.clear(); std::map<int, Val*> ptr; std::vector<Ctx> ctxs; size_t ops = g.range(1, 60); bool big = g.chance(1, 4); bool evicted = false; unsigned nk = (unsigned) g.range(1, 3); size_t shared = 0; uint64_t e, sz, mx, cap;
  auto key = [&](int k) { Bytes b(32, (uint8_t) k); b[31] = 7; return b; };
  auto valid = [&](int k) { int r = -1; for (size_t i = 0; i < vals.size(); i++) if (vals[i].global && !vals[i].freed && vals[i].key == key(k) && !vals[i].invalid && vals[i].expiry >= g_now) r = (int) i; return r; };
  auto release = [&](size_t ci) { Ctx c = ctxs[ci]; ctxs.erase(ctxs.begin() + ci); std::map<int, bool> must_free; g.note("release ctx"); for (auto& e : c.l) vals[e.second.id].users--; std::vector<std::pair<int, uint64_t>> expect_free; std::vector<int> moved;
    // model: newest first
    for (size_t i = c.l.size(); i-- > 0;) { Local& l = c.l[i].second; Info& v = vals[l.id]; if (l.global) continue; if (l.ttl && valid(c.l[i].first) < 0) { v.global = true; v.expiry = g_now + l.ttl; moved.push_back(l.id); } else expect_free.push_back({l.id, l.ttl}); }
    c4_prover_free(c.c); for (auto& x : expect_free) { int i = x.first; if (big && !vals[i].freed && x.second) { vals[i].global = true; vals[i].expiry = g_now + x.second; continue; } /* the newer value was evicted meanwhile */ CHECK(vals[i].freed == 1, "value %d freed %d times when its context was released", i, vals[i].freed); }
    if (!big) for (int i : moved) CHECK(vals[i].freed == 0, "value %d with a lifetime was dropped when its context was released", i); };
  for (size_t op = 0; op < ops; op++) {
    switch (g.weighted({3, 7, 8, 4, 2, 2, 2})) {
      case 0: { if (ctxs.size() < 5) { Ctx c; c.worker = g.chance(1, 8); c.c = c4_prover_create((char*) "eth_chainId", (char*) "[]", 1, c.worker ? C4_PROVER_FLAG_UV_WORKER_REQUIRED : 0); ctxs.push_back(c); g.note("create ctx%zu%s", ctxs.size() - 1, c.worker ? " (worker)" : ""); } break; }
      case 1: { if (ctxs.empty()) break; size_t ci = g.below(ctxs.size()); int k = (int) g.below(nk); Val* v = (Val*) malloc(sizeof(Val)); v->magic = 0x1234567; v->id = (int) vals.size(); Info in; in.key = key(k); in.size = (uint32_t) (big ? g.pick(std::vector<uint64_t>{10u << 20, 40u << 20, 90u << 20, 200u << 20}) : g.range(1, 1000)); in.users = 1; uint64_t ttl = g.chance(1, 4) ? 0 : g.pick(std::vector<uint64_t>{1, 50, 1000, 100000}); vals.push_back(in); ptr[v->id] = v;
        g.note("ctx%zu set key%d = value%d size %u ttl %llu", ci, k, v->id, in.size, (unsigned long long) ttl); Bytes kb = key(k); c4_prover_cache_set(ctxs[ci].c, kb.data(), v, in.size, ttl, free_val); ctxs[ci].l.push_back({k, {v->id, false, ttl}}); break; }
      case 2: { if (ctxs.empty()) break; size_t ci = g.below(ctxs.size()); int k = (int) g.below(nk); Bytes kb = key(k); bool loc = g.chance(1, 6); const Val* v = (const Val*) (loc ? c4_prover_cache_get_local(ctxs[ci].c, kb.data()) : c4_prover_cache_get(ctxs[ci].c, kb.data())); g.note("ctx%zu get%s key%d -> %s", ci, loc ? "_local" : "", k, v ? "value" : "nothing"); int own = -1; for (auto& e : ctxs[ci].l) if (e.first == k) own = e.second.id;
        if (v) { int id = -1; for (auto& p : ptr) if (p.second == v && !vals[p.first].freed) id = p.first; CHECK(id >= 0, "a freed or unknown value was returned"); CHECK(v->magic == 0x1234567 && v->id == id, "value corrupt"); CHECK(vals[id].key == kb, "value of another key"); if (own >= 0) CHECK(id == own, "value%d returned, the context's newest is value%d", id, own); else { CHECK(!loc && !ctxs[ci].worker, "value of another context returned"); CHECK(vals[id].global, "value%d belongs to another context that is still running", id); CHECK(!vals[id].invalid, "invalidated value%d returned", id); CHECK(vals[id].expiry >= g_now, "value%d expired %llu ms ago", id, (unsigned long long) (g_now - vals[id].expiry)); ctxs[ci].l.push_back({k, {id, true, 0}}); vals[id].users++; shared++; } }
        else { CHECK(own < 0, "the context's own value%d is not found", own); if (!loc && !ctxs[ci].worker && !big) CHECK(valid(k) < 0, "value%d is valid, but not found", valid(k)); } break; }
      case 3: if (!ctxs.empty()) release(g.below(ctxs.size())); break;
      case 4: { uint64_t d = g.pick(std::vector<uint64_t>{1, 30, 60, 2000, 200000}); g_now += d; g.note("clock +%llu", (unsigned long long) d); break; }
      case 5: { int k = (int) g.below(nk); Bytes kb = key(k); g.note("invalidate key%d", k); c4_prover_cache_invalidate(kb.data()); for (auto& i : vals) if (i.key == kb && i.global && !i.freed) i.invalid = true; break; }
      default: { bool all = big && g.chance(1, 3); g.note("cleanup%s", all ? " with pressure" : ""); std::vector<int> bef; for (size_t i = 0; i < vals.size(); i++) if (!vals[i].freed) bef.push_back((int) i); c4_prover_cache_cleanup(g_now, all ? 100u << 20 : 0); for (size_t i = 0; i < vals.size(); i++) { Info& v = vals[i]; if (!v.global) continue; if (!v.freed) CHECK(v.users || (v.expiry >= g_now && !v.invalid), "unused %s value%zu kept by the cleanup", v.invalid ? "invalidated" : "expired", i); } if (!big) for (int i : bef) if (vals[i].freed) CHECK(!vals[i].users && (vals[i].expiry < g_now || vals[i].invalid), "value%d removed by the cleanup although valid", i); break; }
    }
    CHECK(g_err.empty(), "%s", g_err.c_str()); for (size_t i = 0; i < vals.size(); i++) { CHECK(vals[i].freed <= 1, "value%zu freed %d times", i, vals[i].freed); if (vals[i].users) CHECK(!vals[i].freed && ptr[(int) i]->magic == 0x1234567, "value%zu in use was freed", i); }
  }
  while (!ctxs.empty()) release(ctxs.size() - 1); CHECK(g_err.empty(), "%s", g_err.c_str()); c4_prover_cache_cleanup(~0ull, 0); CHECK(g_err.empty(), "%s", g_err.c_str()); for (size_t i = 0; i < vals.size(); i++) CHECK(vals[i].freed == 1, "value%zu freed %d times in the end", i, vals[i].freed);
  c4_prover_cache_stats(&e, &sz, &mx, &cap); CHECK(e == 0 && sz == 0, "%llu entries left", (unsigned long long) e); if (shared) g.nontrivial(g.out.data(), g.out.size() * 8), g.label("shared"); if (big) g.label("size pressure");
}
