// strict JSON parser (RFC 8259) used as reference for texts the code under test produces
#pragma once
#include "cut.h"
namespace js {
struct V { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; bool b = false; std::string s; /* text of numbers, decoded strings */ std::vector<V> a; std::vector<std::pair<std::string, V>> o;
  const V* get(const std::string& k) const { for (auto& x : o) if (x.first == k) return &x.second; return nullptr; } };
struct P { const std::string& s; size_t i = 0; std::string err; explicit P(const std::string& x) : s(x) {}
  bool fail(const std::string& m) { if (err.empty()) err = m + " at " + std::to_string(i); return false; }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) i++; }
  bool str(std::string& o) { if (i >= s.size() || s[i] != '"') return fail("string expected"); for (i++;; i++) { if (i >= s.size()) return fail("open string"); unsigned char c = (unsigned char) s[i]; if (c == '"') { i++; return true; } if (c < 0x20) return fail("control character in string"); if (c != '\\') { o += (char) c; continue; } if (++i >= s.size()) return fail("open escape"); switch (s[i]) { case '"': case '\\': case '/': o += s[i]; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'u': { unsigned v = 0; for (int k = 0; k < 4; k++) { if (++i >= s.size() || !isxdigit((unsigned char) s[i])) return fail("bad unicode escape"); v = v * 16 + (unsigned) (isdigit((unsigned char) s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); } if (v < 0x80) o += (char) v; else if (v < 0x800) { o += (char) (0xc0 | v >> 6); o += (char) (0x80 | (v & 63)); } else { o += (char) (0xe0 | v >> 12); o += (char) (0x80 | (v >> 6 & 63)); o += (char) (0x80 | (v & 63)); } break; } default: return fail("bad escape"); } } }
  bool lit(const char* l) { size_t n = strlen(l); if (s.compare(i, n, l)) return fail("bad literal"); i += n; return true; }
  bool val(V& v, int d = 0) { if (d > 200) return fail("too deep"); ws(); if (i >= s.size()) return fail("value expected"); char c = s[i];
    if (c == '{') { v.t = V::OBJ; i++; ws(); if (i < s.size() && s[i] == '}') { i++; return true; } for (;;) { ws(); std::string k; if (!str(k)) return false; ws(); if (i >= s.size() || s[i] != ':') return fail("colon expected"); i++; V x; if (!val(x, d + 1)) return false; if (v.get(k)) return fail("repeated member " + k); v.o.push_back({k, x}); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } if (i < s.size() && s[i] == '}') { i++; return true; } return fail("comma or brace expected"); } }
    if (c == '[') { v.t = V::ARR; i++; ws(); if (i < s.size() && s[i] == ']') { i++; return true; } for (;;) { V x; if (!val(x, d + 1)) return false; v.a.push_back(x); ws(); if (i < s.size() && s[i] == ',') { i++; continue; } if (i < s.size() && s[i] == ']') { i++; return true; } return fail("comma or bracket expected"); } }
    if (c == '"') { v.t = V::STR; return str(v.s); } if (c == 't') { v.t = V::BOOL; v.b = true; return lit("true"); } if (c == 'f') { v.t = V::BOOL; return lit("false"); } if (c == 'n') return lit("null");
    size_t b = i; if (i < s.size() && s[i] == '-') i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) return fail("unexpected character"); if (s[i] == '0') i++; else while (i < s.size() && isdigit((unsigned char) s[i])) i++; if (i < s.size() && s[i] == '.') { i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) return fail("bad number"); while (i < s.size() && isdigit((unsigned char) s[i])) i++; } if (i < s.size() && (s[i] | 32) == 'e') { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) return fail("bad number"); while (i < s.size() && isdigit((unsigned char) s[i])) i++; }
    v.t = V::NUM; v.s = s.substr(b, i - b); return true; }
};
inline bool parse(const std::string& s, V& v, std::string& err) { P p(s); bool ok = p.val(v); if (ok) { p.ws(); if (p.i != s.size()) ok = p.fail("trailing text"); } err = p.err; return ok; }
inline V must(const std::string& s, const char* what) { V v; std::string e; CHECK(parse(s, v, e), "%s is no valid JSON (%s): %.600s", what, e.c_str(), s.c_str()); return v; }
inline std::string low(std::string s) { for (auto& c : s) c = (char) tolower(c); return s; }
inline std::string show(const V& v) { switch (v.t) { case V::NUL: return "null"; case V::BOOL: return v.b ? "true" : "false"; case V::NUM: return v.s; case V::STR: return "\"" + v.s + "\""; case V::ARR: { std::string r = "["; for (auto& x : v.a) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; } default: { std::string r = "{"; for (auto& x : v.o) r += (r.size() > 1 ? "," : "") + ("\"" + x.first + "\":" + show(x.second)); return r + "}"; } } }
} // namespace js
