// C12: SSZ encoding, decoding, validation and JSON conversion against a reference codec over random types.
#include "sszgen.h"
static ssz_ob_t OB(const Ty* t, bytes_t b) { ssz_ob_t o; o.def = t->def; o.bytes = b; return o; }
// reads everything back through the accessors
static void cmp(const Val& v, ssz_ob_t ob) {
  Bytes e = enc(v); CHECK(ob.def == v.t->def || v.t->k == SSZ_TYPE_UNION, "definition"); CHECK(toB(ob.bytes) == e && ob.bytes.len == e.size(), "bytes of %s: %s instead of %s", show(v.t).c_str(), pbt::hex(toB(ob.bytes)).c_str(), pbt::hex(e).c_str());
  auto child = [&](const Val& c, ssz_ob_t o, bool unwrapped) {
    if (c.t->k != SSZ_TYPE_UNION) { cmp(c, o); return; }
    ssz_ob_t u = unwrapped ? o : ssz_union(o); const Ty* st = c.t->c[c.sel]; CHECK(u.def == st->def, "union variant %u", c.sel);
    if (st->k == SSZ_TYPE_NONE) CHECK(u.bytes.len == 0, "none with data"); else cmp(c.c[0], u);
  };
  switch (v.t->k) {
    case SSZ_TYPE_UINT: if (v.t->len <= 8) { uint64_t x = 0; for (size_t i = 0; i < v.raw.size(); i++) x |= (uint64_t) v.raw[i] << (8 * i); CHECK(ssz_uint64(ob) == x && ssz_uint32(ob) == (uint32_t) x, "uint"); } break;
    case SSZ_TYPE_CONTAINER: for (auto& c : v.c) { ssz_ob_t o = ssz_get(&ob, c.t->name.c_str()); CHECK(ssz_get_def(ob.def, c.t->name.c_str()) == c.t->def, "get_def"); child(c, o, true); } break;
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: {
      size_t n = is_bytes(v.t) ? v.raw.size() : v.c.size(); CHECK(ssz_len(ob) == n, "len %u instead of %zu in %s", ssz_len(ob), n, show(v.t).c_str());
      if (is_bytes(v.t)) { for (size_t i = 0; i < n && i < 40; i++) { ssz_ob_t o = ssz_at(ob, (uint32_t) i); CHECK(o.bytes.len == 1 && o.bytes.data[0] == v.raw[i], "byte %zu", i); } }
      else for (size_t i = 0; i < n; i++) child(v.c[i], ssz_at(ob, (uint32_t) i), false);
      CHECK(!ssz_at(ob, (uint32_t) n).def, "element behind the end"); break; }
    case SSZ_TYPE_BIT_LIST: CHECK(ssz_len(ob) == v.bits, "bitlist length %u instead of %u", ssz_len(ob), v.bits); break;
  }
}
// builds with the builder API
static bytes_t build(Gen& g, const Val& v);
static void add_field(Gen& g, ssz_builder_t* b, const Val& c) {
  const char* n = c.t->name.c_str();
  if (c.t->k == SSZ_TYPE_UINT && g.coin()) { uint64_t x = 0; for (size_t i = 0; i < c.raw.size() && i < 8; i++) x |= (uint64_t) c.raw[i] << (8 * i); switch (c.t->len) { case 1: ssz_add_uint8(b, (uint8_t) x); return; case 2: ssz_add_uint16(b, (uint16_t) x); return; case 4: ssz_add_uint32(b, (uint32_t) x); return; case 8: ssz_add_uint64(b, x); return; case 32: { Exact be(ref::rev(c.raw)); bytes_t t = be.b(); if (g.coin()) t = bytes_remove_leading_zeros(t); ssz_add_uint256(b, t); return; } } }
  if (c.t->k == SSZ_TYPE_UNION) {
    const Ty* st = c.t->c[c.sel]; 
    if (st->k == SSZ_TYPE_CONTAINER && g.coin()) { ssz_builder_t sb; memset(&sb, 0, sizeof sb); sb.def = st->def; for (auto& x : c.c[0].c) add_field(g, &sb, x); ssz_add_builders(b, n, sb); return; }
    Bytes e = c.c.size() ? enc(c.c[0]) : Bytes(); Exact ee(e); ssz_ob_t o; o.def = st->def; o.bytes = ee.b(); ssz_add_ob(b, n, o); return; }
  if (c.t->k == SSZ_TYPE_CONTAINER && g.coin()) { ssz_builder_t sb; memset(&sb, 0, sizeof sb); sb.def = c.t->def; for (auto& x : c.c) add_field(g, &sb, x); ssz_add_builders(b, n, sb); return; }
  bytes_t t = build(g, c); ssz_add_bytes(b, n, t); free(t.data);
}
static bytes_t build(Gen& g, const Val& v) {
  if (v.t->k == SSZ_TYPE_CONTAINER) { ssz_builder_t b; memset(&b, 0, sizeof b); b.def = v.t->def; for (auto& c : v.c) add_field(g, &b, c); return ssz_builder_to_bytes(&b).bytes; }
  if (v.t->k == SSZ_TYPE_LIST && !is_bytes(v.t)) { ssz_builder_t b; memset(&b, 0, sizeof b); b.def = v.t->def; for (auto& c : v.c) { if (c.t->k == SSZ_TYPE_CONTAINER && g.coin()) { ssz_builder_t sb; memset(&sb, 0, sizeof sb); sb.def = c.t->def; for (auto& x : c.c) add_field(g, &sb, x); ssz_add_dynamic_list_builders(&b, (int) v.c.size(), sb); } else { bytes_t t = build(g, c); ssz_add_dynamic_list_bytes(&b, (int) v.c.size(), t); free(t.data); } } return ssz_builder_to_bytes(&b).bytes; }
  Bytes e = enc(v); bytes_t r; r.len = (uint32_t) e.size(); r.data = (uint8_t*) malloc(e.size() + 1); if (e.size()) memcpy(r.data, e.data(), e.size()); return r;
}
PROP(roundtrip, 30000) {
  Types T(g, true); Ty* t = T.top(3); int bud = 60; Val v = gval(g, t, bud); Bytes e = enc(v); g.note("%s = %.200s", show(t).c_str(), pbt::hex(e).c_str());
  CHECK(ssz_is_dynamic(t->def) == t->dyn && ssz_fixed_length(t->def) == fixlen(t), "length of %s: %zu instead of %zu", show(t).c_str(), ssz_fixed_length(t->def), fixlen(t));
  Exact x(e); ssz_ob_t ob = OB(t, x.b());
  c4_state_t st; memset(&st, 0, sizeof st); bool ok = ssz_is_valid(ob, true, &st); std::string err = st.error ? st.error : ""; free(st.error); CHECK(ok, "valid encoding of %s rejected: %s", show(t).c_str(), err.c_str());
  CHECK(ssz_is_valid(ob, false, NULL), "valid encoding rejected (not recursive)");
  cmp(v, ob);
  bytes_t b = build(g, v); Bytes bb = toB(b); uint32_t bl = b.len; free(b.data); CHECK(bl == e.size() && bb == e, "builder made %s instead of %s for %s", pbt::hex(bb).c_str(), pbt::hex(e).c_str(), show(t).c_str());
  char* s = ssz_dump_to_str(ob, g.coin(), g.coin()); free(s);
  if (e.size() > 4 && t->c.size()) g.nontrivial(e.data(), e.size()); g.label(t->dyn ? "dynamic" : "fixed");
}
static void walk(ssz_ob_t ob, int depth) {
  if (!ob.def || !ob.bytes.data || depth < 0) return;
  switch (ob.def->type) {
    case SSZ_TYPE_CONTAINER: for (uint32_t i = 0; i < ob.def->def.container.len; i++) walk(ssz_get(&ob, ob.def->def.container.elements[i].name), depth - 1); break;
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: { uint32_t n = ssz_len(ob); for (uint32_t i = 0; i < n; i++) walk(ssz_at(ob, i), depth - 1); break; }
    case SSZ_TYPE_UNION: walk(ssz_union(ob), depth - 1); break;
    case SSZ_TYPE_BIT_LIST: ssz_len(ob); break;
    default: { volatile uint8_t s = 0; for (uint32_t i = 0; i < ob.bytes.len; i++) s = s + ob.bytes.data[i]; }
  }
}
PROP(validation, 60000) {
  Types T(g, true); Ty* t = T.top(3); int bud = 40; Val v = gval(g, t, bud); Bytes e = enc(v);
  size_t muts = g.range(1, 3);
  for (size_t i = 0; i < muts; i++) switch (g.below(6)) {
      case 0: if (e.size()) e[g.below(e.size())] = g.byte(); break;
      case 1: if (e.size()) e.resize(g.below(e.size())); break;
      case 2: { Bytes a = g.rnd(g.range(1, 5)); e.insert(e.end(), a.begin(), a.end()); break; }
      case 3: if (e.size() >= 4) { size_t p = g.below((e.size() - 3 + 3) / 4) * 4; if (p + 4 <= e.size()) { uint32_t o = (uint32_t) (g.coin() ? e.size() + g.below(9) - 4 : e[p] + g.below(9) - 4); for (int j = 0; j < 4; j++) e[p + j] = (uint8_t) (o >> (8 * j)); } } break;
      case 4: if (e.size()) { size_t p = g.below(e.size()); e.erase(e.begin() + p); } break;
      default: if (e.size()) e[g.below(e.size())] ^= 1 << g.below(8);
    }
  bool want = valid(t, e.data(), e.size()); Exact x(e); ssz_ob_t ob = OB(t, x.b()); g.note("%s = %.300s (%s)", show(t).c_str(), pbt::hex(e).c_str(), want ? "valid" : "invalid");
  c4_state_t st; memset(&st, 0, sizeof st); bool ok = ssz_is_valid(ob, true, &st); std::string err = st.error ? st.error : ""; free(st.error);
  CHECK(ok == want, "ssz_is_valid(%s) = %d (%s)", show(t).c_str(), ok, err.c_str()); if (!ok) CHECK(err.size(), "rejected without message");
  g.label(want ? "valid" : "invalid");
  if (ok) { walk(ob, 8); char* s = ssz_dump_to_str(ob, false, true); free(s); uint8_t h[32]; ssz_hash_tree_root(ob, h); }
  if (t->dyn) g.nontrivial(e.data(), e.size());
}
static bool jsonable(const Ty* t) { if (t->k == SSZ_TYPE_UNION || t->k == SSZ_TYPE_NONE) return false; for (auto c : t->c) if (!jsonable(c)) return false; return true; }
PROP(json_roundtrip, 25000) {
  Types T(g, false); Ty* t = T.top(3); CHECK(jsonable(t), "gen"); int bud = 40; Val v = gval(g, t, bud); Bytes e = enc(v);
  Exact x(e); bool hexu = g.coin(); char* s = ssz_dump_to_str(OB(t, x.b()), false, hexu); std::string js = s; free(s); g.note("%s -> %.400s", show(t).c_str(), js.c_str());
  c4_state_t st; memset(&st, 0, sizeof st); pbt::heap_begin(); ssz_ob_t r = ssz_from_json(json_parse(js.c_str()), t->def, &st); bool same = toB(r.bytes) == e && r.bytes.len == e.size(); std::string got = pbt::hex(toB(r.bytes)); free(r.bytes.data); long live = pbt::heap_live(); pbt::heap_end();
  std::string err = st.error ? st.error : ""; bool he = st.error != NULL; free(st.error); CHECK(!he, "error %s", err.c_str());
  CHECK(same, "%s: %s became %s", js.c_str(), pbt::hex(e).c_str(), got.c_str());
  if (e.size() > 8) g.nontrivial(e.data(), e.size());
}
// fields may be named in snake case; a missing field is an error
PROP(json_names, 8000) {
  Types T(g, false); Ty* t = T.top(3); CHECK(jsonable(t), "gen"); int bud = 40; Val v = gval(g, t, bud); Bytes e = enc(v); Exact x(e); char* s = ssz_dump_to_str(OB(t, x.b()), false, g.coin()); std::string js = s; free(s);
  std::vector<size_t> keys; for (size_t i = 0; i + 2 < js.size(); i++) if (js[i] == '"' && js[i + 1] == 'f') { size_t q = js.find('"', i + 1); if (q != std::string::npos && js[q + 1] == ':') keys.push_back(i); } if (keys.empty()) throw pbt::Discard();
  bool missing = g.coin(); size_t gone = keys[g.below(keys.size())]; std::string o; for (size_t i = 0; i < js.size(); i++) { o += js[i]; if (!std::binary_search(keys.begin(), keys.end(), i)) continue; if (missing && i == gone) { switch (g.below(3)) { case 0: o += "f"; break; case 1: o += "F", i++; break; default: { size_t q = js.find('"', i + 1); o += js.substr(i + 1, q - i - 1) + "x\""; i = q; } } } else if (g.coin()) { o += "f_"; o += (char) (js[i + 2] + 32); i += 2; } }
  g.note("%s <- %.400s", show(t).c_str(), o.c_str()); c4_state_t st; memset(&st, 0, sizeof st); ssz_ob_t r = ssz_from_json(json_parse(o.c_str()), t->def, &st); bool same = toB(r.bytes) == e; free(r.bytes.data); bool err = st.error; free(st.error);
  if (missing) CHECK(err, "a missing field is not reported"); else CHECK(!err && same, "names in snake case are not found"); g.label(missing ? "missing" : "snake"); g.nontrivial(o.data(), o.size());
}
// arbitrary JSON converts to something of the right length, in bounds, without leaks
PROP(json_garbage, 15000) {
  Types T(g, true); Ty* t = T.top(2); int bud = 20; Val v = gval(g, t, bud); Bytes e = enc(v); Exact x(e); char* s = ssz_dump_to_str(OB(t, x.b()), false, g.coin()); std::string js = s; free(s);
  size_t n = g.range(1, 4); for (size_t i = 0; i < n && js.size(); i++) { size_t p = g.below(js.size()); switch (g.below(3)) { case 0: js.erase(p, g.range(1, 6)); break; case 1: js[p] = (char) g.range(32, 126); break; default: js.insert(p, 1, "0fx\"[]{},"[g.below(9)]); } }
  Exact je(S2B(js + std::string(1, '\0'))); g.note("%s <- %.300s", show(t).c_str(), js.c_str());
  c4_state_t st; memset(&st, 0, sizeof st); pbt::heap_begin(); ssz_ob_t r = ssz_from_json(json_parse((char*) je.p), t->def, &st); if (!t->dyn) CHECK(r.bytes.len == fixlen(t), "fixed length %u instead of %zu for %s", r.bytes.len, fixlen(t), show(t).c_str());
  volatile uint8_t q = 0; for (uint32_t i = 0; i < r.bytes.len; i++) q = q + r.bytes.data[i];
  free(r.bytes.data); free(st.error); long live = pbt::heap_live(); pbt::heap_end(); CHECK(live == 0, "%ld blocks leaked", live);
  if (js.size() > 10) g.nontrivial(js.data(), js.size());
}
