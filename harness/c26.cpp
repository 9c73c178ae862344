// C26: verification on OP-Stack chains against blocks signed by a generated sequencer.
// LDFLAGS: -Wl,--wrap=op_get_chain_config
#include "op.h"
#include "evmone_c_wrapper.h"
typedef evmone_result (*verif_evm_fn)(const evmone_host_interface*, void*, int, const evmone_message*, const uint8_t*, size_t);
extern "C" verif_evm_fn verif_evm_execute;
// ---- scripted VM: digest of code, input and the slot named by the input
static void release(void* p) { free(p); }
static Bytes vm_digest(const Bytes& code, const Bytes& input, const Bytes& slot) { return ref::keccak(join({code, Bytes{1}, input, slot})); }
static evmone_result vm(const evmone_host_interface* h, void* ctx, int, const evmone_message* m, const uint8_t* code, size_t n) {
  evmone_result r; memset(&r, 0, sizeof r); Bytes s, d; if (m->input_size >= 32) { evmc_bytes32 k; memcpy(k.bytes, m->input_data, 32); evmc_bytes32 v = h->get_storage(ctx, &m->destination, &k); pbt::HeapPause hp; s.assign(v.bytes, v.bytes + 32); }
  { pbt::HeapPause hp; d = vm_digest(Bytes(code, code + n), Bytes(m->input_data, m->input_data + m->input_size), s); } uint8_t* o = (uint8_t*) malloc(32); memcpy(o, d.data(), 32); r.output_data = o; r.output_size = 32; r.release_callback = (void*) release; r.release_context = o; r.gas_left = 5; return r;
}
// ---- requests
enum Kind { ACC, TX, RCPT, LOGS, BLOCK, BNUM, CALL, SIM, LOCAL, NOPROOF };
struct Q { Kind k; std::string method, args; Bytes data, proof; int type = -1; Bytes truth; bool latest = false; std::vector<OB> blocks; };
struct W { uint64_t chain; OB o, o2; };
static std::string bref(Gen& g, const W& w, Q& x) { switch (g.below(3)) { case 0: x.latest = true; return q(g.pick(std::vector<std::string>{"latest", "safe", "finalized"})); case 1: return hexs(w.o.b.p.hash); default: return hexn(w.o.b.p.number); } }
static Bytes logs_tx(const Block& b, size_t i) { return cont({F(U(i, 4)), D(dlist(b.rtrie().proof(ref::rlp((uint64_t) i)))), D({})}); }
static Bytes call_account(const State& st, const Bytes& a, const std::vector<Bytes>& keys) { const Account* ac = acc(st, a); Bytes code = ac ? ac->code : Bytes(); return cont({D(dlist(st.trie().proof(ref::keccak(a)))), F(a), D(code.empty() ? uni(0, Bytes{0}) : uni(1, code)), D(storage_proof_list(ac, keys))}); }
// the account and others, which are proven with the state given as second
static Bytes call_accounts(Gen& g, const State& st, const State& others, const Bytes& a, const std::vector<Bytes>& keys) { std::vector<Bytes> l; for (size_t n = g.below(3); n--;) { Bytes o = pick_addr(g, others); if (o != a) l.push_back(call_account(others, o, {})); } l.insert(l.begin() + g.below(l.size() + 1), call_account(st, a, keys)); return dlist(l); }
static std::string logjson(const Block& b, size_t t, size_t k) { const Log& l = b.rcpts[t].logs[k]; std::string s; for (size_t i = 0; i < l.topics.size(); i++) s += (i ? "," : "") + hexs(l.topics[i]); return "{\"address\":" + hexs(l.addr) + ",\"topics\":[" + s + "],\"data\":" + hexs(l.data) + ",\"blockHash\":" + hexs(b.p.hash) + ",\"blockNumber\":" + hexn(b.p.number) + ",\"transactionHash\":" + hexs(b.txs[t].hash) + ",\"transactionIndex\":" + hexn(t) + ",\"logIndex\":" + hexn(log_base(b, t) + k) + ",\"removed\":false}"; }
static Q make(Gen& g, const W& w, int kind) {
  Q x; x.k = (Kind) kind; const Block& b = w.o.b; size_t i = g.below(b.txs.size()); Bytes bp = bproof(g, w.o); x.data = uni(0); x.proof = uni(0);
  switch (kind) {
    case ACC: { int m = (int) g.below(5); x.method = ACCOUNT_METHODS[m]; Bytes a = pick_addr(g, b.st); const Account* ac = acc(b.st, a); std::vector<Bytes> keys; for (size_t n = m == 3 ? 1 : m == 4 ? g.below(4) : 0; n--;) keys.push_back(pick_key(g, ac)); x.args = account_args(m, a, keys, bref(g, w, x)); if (m == 2) x.data = uni(2, ac ? ac->code : Bytes()); x.proof = uni(1, account_proof(b.st, a, keys, bp)); x.truth = truth::account(b.st, m, a, keys); x.type = ACCOUNT_TYPES[m]; break; }
    case TX: { static const char* M[] = {"eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex"}; int m = (int) g.below(3); x.method = M[m]; x.args = m == 0 ? "[" + hexs(b.txs[i].hash) + "]" : "[" + (m == 1 ? hexs(b.p.hash) : hexn(b.p.number)) + "," + hexn(i) + "]"; x.proof = uni(2, cont({D({}), F(U(i, 4)), D(bp)})); x.truth = tx_data(b.txs[i], b.p.hash, b.p.number, (uint32_t) i, num(b.p.baseFee)); x.type = SSZ_TYPE_CONTAINER; g.label(b.txs[i].type == 0x7e ? "deposited" : "signed transaction"); break; }
    case RCPT: x.method = "eth_getTransactionReceipt"; x.args = "[" + hexs(b.txs[i].hash) + "]"; x.proof = uni(3, cont({D(g.coin() ? b.p.txs[i] : Bytes()), F(U(i, 4)), D(dlist(b.rtrie().proof(ref::rlp((uint64_t) i)))), D({}), D(bp)})); x.truth = rcpt_data(b, i, b.txs[i].type == 0x7e ? 0xfffe : 0x3ffe); x.data = uni(5, x.truth); x.type = SSZ_TYPE_CONTAINER; g.label(b.txs[i].type == 0x7e ? "deposited" : "signed transaction"); break;
    case LOGS: { bool vl = g.chance(1, 3); x.method = vl ? "eth_verifyLogs" : "eth_getLogs"; std::vector<const OB*> obs{&w.o}; if (g.coin()) obs.push_back(&w.o2); std::set<Bytes> fa; std::vector<Bytes> bl, d; std::string va; const OB& lo = *obs[0]; const OB& hi = *obs.back(); if (!vl && g.coin()) { for (auto& r : b.rcpts) for (auto& l : r.logs) if (g.coin()) fa.insert(l.addr); }
      for (auto* o : obs) { std::vector<Bytes> l; const Block& B = o->b; for (size_t t = 0; t < B.txs.size(); t++) { bool any = false; for (size_t k = 0; k < B.rcpts[t].logs.size(); k++) { const Log& lg = B.rcpts[t].logs[k]; if ((vl && g.chance(1, 3)) || (fa.size() && !fa.count(lg.addr))) continue; any = true; d.push_back(log_data(lg, {B.p.hash, B.p.number, B.txs[t].hash, (uint32_t) t, log_base(B, t) + (uint32_t) k})); va += (va.size() ? "," : "") + logjson(B, t, k); } if (any) l.push_back(logs_tx(B, t)); } if (l.size()) bl.push_back(cont({D(bproof(g, *o)), D(dlist(l))})); }
      x.args = vl ? "[" + va + "]" : "[{\"fromBlock\":" + hexn(lo.b.p.number) + ",\"toBlock\":" + hexn(hi.b.p.number); if (!vl) { if (fa.size()) { x.args += ",\"address\":["; size_t n = 0; for (auto& e : fa) x.args += (n++ ? "," : "") + hexs(e); x.args += "]"; } x.args += "}]"; } x.proof = uni(4, dlist(bl)); x.truth = dlist(d); x.data = vl ? uni(0) : uni(6, x.truth); x.type = SSZ_TYPE_LIST; g.label(d.empty() ? "no logs" : "logs"); break; }
    case BLOCK: { int m = (int) g.below(2); bool full = g.coin(); x.method = m ? "eth_getBlockByNumber" : "eth_getBlockByHash"; x.latest = m && g.chance(1, 3); x.args = "[" + (x.latest ? q("latest") : m ? hexn(b.p.number) : hexs(b.p.hash)) + "," + (full ? "true" : "false") + "]"; x.proof = uni(6, cont({D(bp)})); x.truth = truth::block(b, full, true); x.truth[3] = 0xff; /* all fields are shown */ x.type = SSZ_TYPE_CONTAINER; break; }
    case BNUM: x.method = "eth_blockNumber"; x.latest = true; x.args = "[]"; x.proof = uni(6, cont({D(bp)})); x.truth = U(b.p.number, 8); x.type = SSZ_TYPE_UINT; break;
    case CALL: case SIM: { x.method = kind == CALL ? "eth_call" : "colibri_simulateTransaction"; Bytes a = pick_addr(g, b.st); const Account* ac = acc(b.st, a); Bytes in = g.coin() ? pick_key(g, ac) : g.rnd(g.below(20)); std::vector<Bytes> keys; if (in.size() >= 32) keys.push_back(in); x.args = "[{\"to\":" + hexs(a) + ",\"data\":" + hexs(in) + "}," + bref(g, w, x) + "]"; x.proof = uni(5, cont({D(call_accounts(g, b.st, b.st, a, keys)), D(bp)})); x.truth = vm_digest(ac ? ac->code : Bytes(), in, keys.size() ? slot_value(ac, in) : Bytes()); if (kind == CALL && g.coin()) x.data = uni(2, x.truth); x.type = kind == CALL ? SSZ_TYPE_LIST : SSZ_TYPE_CONTAINER; break; }
    case LOCAL: { bool c = g.coin(); Bytes d = g.rnd(g.below(50)); x.method = c ? "eth_chainId" : "web3_sha3"; x.args = c ? "[]" : "[" + hexs(d) + "]"; x.truth = c ? U(w.chain, 8) : ref::keccak(d); x.type = c ? SSZ_TYPE_UINT : SSZ_TYPE_VECTOR; break; }
    default: { static const std::vector<std::string> n = {"eth_gasPrice", "eth_estimateGas", "eth_getBlockReceipts", "eth_feeHistory", "eth_newFilter", "foo", "", "eth_getBalance", "eth_call", "eth_blockNumber", "eth_getLogs", "eth_getTransactionByHash"}; x.method = g.pick(n); x.args = g.coin() ? "[]" : "[" + hexs(g.rnd(20)) + ",\"latest\"]"; }
  }
  return x;
}
static Bytes req(const Bytes& data, const Bytes& proof) { Bytes r = request(data, proof); r[0] = (uint8_t) C4_CHAIN_TYPE_OP; return r; }
static W setup(Gen& g) { verif_evm_execute = vm; real_conf = false; seq = ec::address(SK()); W w; w.chain = CHAINS[g.below(5)]; install_storage(); w.o = gen(g, w.chain); w.o2 = gen(g, w.chain, w.o.b.p.number); return w; }
static Res run(const W& w, const Bytes& r, const Q& x) { return verify(r, x.method, x.args, w.chain, [](data_request_t*, Bytes&, std::string& e) { e = "no node"; return false; }); }
// the withdrawalsRoot of a block is compared separately
static const size_t O_WROOT = 4 + 8 + 32 + 4 + 256 + 32 + 4;
static Bytes without(Bytes d, size_t o, size_t n) { CHECK(o + n <= d.size(), "reported data too short: %zu", d.size()); for (size_t i = 0; i < n; i++) d[o + i] = 0; return d; }
static const size_t O_TO = 4 + 32 + 8 + 32 + 4 + 1 + 20, O_USED = O_TO + 12, O_LOGS = O_USED + 8, O_PRICE = O_LOGS + 4 + 256 + 1;
static Bytes rmask(Bytes d, bool dep) { d = without(d, 0, 4); d = without(d, O_USED, 8); d = without(d, O_PRICE, dep ? 8 : 20); uint32_t lo = off(d, O_LOGS), n = d.size() > lo ? off(d, lo) / 4 : 0; for (uint32_t k = 0; k < n; k++) d = without(d, lo + off(d, lo + 4 * k) + 32 + 8 + 32 + 4 + 20, 4); return d; }
static Bytes lmask(const Bytes& e) { return without(e, 96, 4); }
static void check_true(Gen& g, const Q& x, const Res& r, const std::string& what) {
  CHECK(x.k != NOPROOF, "%s accepted with %s", x.method.c_str(), what.c_str()); CHECK(r.type == x.type, "%s %s accepted with %s: type %d", x.method.c_str(), x.args.c_str(), what.c_str(), r.type);
#define SAME(a, b) CHECK((a) == (b), "%s %s accepted with %s: reported %s instead of %s", x.method.c_str(), x.args.c_str(), what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str())
  switch (x.k) {
    case BLOCK: { SAME(without(r.data, O_WROOT, 32), without(x.truth, O_WROOT, 32)); if (r.data != x.truth) REQUIRE_KNOWN("withdrawals-root", "withdrawalsRoot differs from the one of the block"); break; }
    case RCPT: SAME(rmask(r.data, x.truth[80] == 0x7e), rmask(x.truth, x.truth[80] == 0x7e)); break;
    case LOGS: { auto t = split(x.truth); for (auto& e : split(r.data)) { bool f = false; for (auto& y : t) f |= lmask(e) == lmask(y); CHECK(f, "%s %s accepted with %s: log %s", x.method.c_str(), x.args.c_str(), what.c_str(), pbt::hex(e).c_str()); } break; }
    case SIM: { bool f = std::search(r.data.begin(), r.data.end(), x.truth.begin(), x.truth.end()) != r.data.end(); CHECK(f, "%s %s accepted with %s: result %s without the returned data %s", x.method.c_str(), x.args.c_str(), what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str()); break; }
    case BNUM: CHECK(num(ref::rev(r.data)) == num(ref::rev(x.truth)), "block number %s instead of %s", pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str()); break;
    default: SAME(r.data, x.truth);
  }
}
static void honest(Gen& g, const W& w, const Q& x) {
  Res r = run(w, req(x.data, x.proof), x); if (x.k == NOPROOF) { CHECK(!r.accepted(), "%s without proof accepted", x.method.c_str()); return; } CHECK(r.accepted(), "honest %s %s rejected: %s", x.method.c_str(), x.args.c_str(), r.err.c_str()); if (x.k == LOGS || x.k == RCPT) CHECK(r.data == x.truth, "%s %s: reported %s instead of %s", x.method.c_str(), x.args.c_str(), pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str()); check_true(g, x, r, "honest proof");
}
static void info(Gen& g, const W& w, const Q& x) { g.label(x.method); g.label(w.o.isthmus ? "isthmus" : "deneb"); g.note("chain %llu %s %s txs %zu", (unsigned long long) w.chain, x.method.c_str(), x.args.substr(0, 400).c_str(), w.o.b.txs.size()); Bytes h = ref::keccak(x.proof); g.nontrivial(h.data(), 32); }
PROP(honest, 900) { W w = setup(g); Q x = make(g, w, (int) g.below(9)); info(g, w, x); honest(g, w, x); }
static Bytes forged(Gen& g, const W& w) { const Block& b = w.o.b; switch (g.below(9)) { case 0: return uni(1, g.rnd(32)); case 1: return uni(2, g.rnd(g.below(40))); case 2: return uni(3, g.rnd(32)); case 3: { txg::Opt op; op.deposited = false; return uni(4, tx_data(txg::gen(g, op), g.rnd(32), g.u64(), 3, 7)); } case 4: { Block b2 = b; Rcpt& r = b2.rcpts[0]; switch (g.below(4)) { case 0: r.cum += 7; break; case 1: r.status = r.status.empty() ? Bytes{1} : Bytes(); break; case 2: r.logs.push_back({g.rnd(20), {}, {}}); break; default: r.dnonce++; r.bloom[3] ^= 1; } return uni(5, rcpt_data(b2, 0, 0xfffe)); } case 5: { LogPos p{b.p.hash, b.p.number, b.txs[0].hash, 0, 0}; return uni(6, dlist({log_data({g.rnd(20), {g.rnd(32)}, g.rnd(5)}, p)})); } case 6: return uni(2, ref::keccak(g.rnd(3))); default: return uni(0); } }
static void alter(Gen& g, OB& o) { auto fl = [&](Bytes& b) { if (b.empty()) b = g.rnd(1); else b[g.below(b.size())] ^= 1 << g.below(8); }; Payload& p = o.b.p; switch (g.below(8)) { case 0: fl(p.state); break; case 1: fl(p.receipts); break; case 2: fl(p.hash); break; case 3: p.number ^= 1ull << g.below(40); break; case 4: fl(p.txs[g.below(p.txs.size())]); break; case 5: fl(o.domain); break; case 6: p.timestamp++; break; default: fl(p.miner); } }
// blocks the sequencer of this chain did not sign
PROP(unsigned_block, 900) {
  W w = setup(g); Q x = make(g, w, (int) g.below(8)); if (x.proof.size() < 300 && x.k == LOGS) throw pbt::Discard(); info(g, w, x); honest(g, w, x);
  for (int i = 0; i < 4; i++) {
    OB o = w.o, o2 = w.o2; if (g.coin()) { o = gen(g, w.chain); o2 = gen(g, w.chain, o.b.p.number); } W w2{w.chain, o, o2}; Q y = make(g, w2, x.k); // an honest request about the other block, its signature replaced
    Bytes d = o.data(), d2 = d, sig = sign(SK(), d, w.chain); std::string what;
    switch (g.below(9)) {
      case 0: what = "another key"; sig = sign(ec::norm_sk(ref::keccak(g.rnd(4))), d, w.chain); break;
      case 1: what = "signature for another chain"; { uint64_t c = g.coin() ? CHAINS[g.below(5)] : g.u64(); if (c == w.chain) c++; sig = sign(SK(), d, c); } break;
      case 2: what = "signature of another block"; { OB s = gen(g, w.chain); sig = sign(SK(), s.data(), w.chain); } break;
      case 3: what = "altered block"; { OB s = o; alter(g, s); d2 = s.data(); if (d2 == d) continue; } break;
      case 4: what = "no domain in the signature"; sig = sign(SK(), d, w.chain, false); break;
      case 5: what = "altered signature"; sig[g.below(64)] ^= (uint8_t) (1 << g.below(8)); break;
      case 6: what = "zero signature"; std::fill(sig.begin(), sig.end(), 0); sig[64] = (uint8_t) g.below(3); break;
      case 7: what = "garbage payload"; d2 = g.rnd(g.below(700)); break;
      default: what = "real sequencer"; real_conf = true; break;
    }
    Bytes zz = what == "garbage payload" && g.coin() ? d2 : zst(g, d2), bad = preconf(zz, sig, what == "garbage payload" && g.chance(1, 3) ? 1 : 0), good = bproof(g, o), pr = y.proof; const Block& b = o.b; size_t ti = 0; // rebuild the proof with the bad block proof in place
    { // the parts in front of the block proof stay as they are
      switch (y.k) { case ACC: case TX: case RCPT: case CALL: case SIM: case BLOCK: case BNUM: { size_t n = good.size(); // the block proof is the last field
            Bytes tail; size_t off_pos = y.k == ACC ? 28 : y.k == TX ? 8 : y.k == RCPT ? 16 : y.k == CALL || y.k == SIM ? 4 : 0; uint32_t o0 = off(pr, 1 + off_pos); pr.resize(1 + o0); pr.insert(pr.end(), bad.begin(), bad.end()); (void) n; break; }
        default: { std::vector<Bytes> l; for (ti = 0; ti < b.txs.size(); ti++) l.push_back(logs_tx(b, ti)); std::vector<Bytes> ds; std::string va; for (ti = 0; ti < b.txs.size(); ti++) for (size_t k = 0; k < b.rcpts[ti].logs.size(); k++) { ds.push_back(log_data(b.rcpts[ti].logs[k], {b.p.hash, b.p.number, b.txs[ti].hash, (uint32_t) ti, log_base(b, ti) + (uint32_t) k})); va += (va.size() ? "," : "") + logjson(b, ti, k); } if (y.method == "eth_getLogs") { y.args = "[{\"fromBlock\":" + hexn(b.p.number) + ",\"toBlock\":" + hexn(b.p.number) + "}]"; y.data = uni(6, dlist(ds)); } else y.args = "[" + va + "]"; pr = uni(4, dlist({cont({D(bad), D(dlist(l))})})); } }
    }
    g.note("%s", what.c_str()); g.label(what); Res r = run(w, req(y.data, pr), y); real_conf = false; CHECK(!r.accepted(), "%s %s accepted with %s", y.method.c_str(), y.args.c_str(), what.c_str());
  }
}
// proofs of every kind for requests of every kind, about this and another signed block
PROP(pairs, 1200) {
  W w = setup(g); W v{w.chain, w.o2, w.o}; if (g.coin()) v.o2 = gen(g, w.chain, w.o2.b.p.number); Q a = make(g, w, (int) g.below(8)); info(g, w, a); honest(g, w, a);
  for (int i = 0; i < 5; i++) {
    bool other = g.chance(1, 3); Q x = make(g, w, g.coin() ? (int) a.k : (int) g.below(10)); if (x.method.empty() && a.k == NOPROOF) continue; const Q p = other ? make(g, v, g.coin() ? (int) x.k : (int) g.below(8)) : a; if (other && x.latest) continue; // any block is fine for latest
    if (x.k == NOPROOF && x.method.rfind("eth_g", 0) == 0) continue; Bytes data; switch (g.below(3)) { case 0: data = p.data; break; case 1: data = x.data; break; default: data = forged(g, w); }
    g.note("proof of %s %s for %s %s data %s", p.method.c_str(), p.args.c_str(), x.method.c_str(), x.args.c_str(), pbt::hex(data).substr(0, 100).c_str()); Res r = run(w, req(data, p.proof), x); if (x.k == NOPROOF && (x.method == "eth_call" || x.method == "eth_blockNumber")) continue;
    if (r.accepted()) { check_true(g, x, r, "a proof of " + p.method + " " + p.args); g.label("still true"); } else g.label("rejected");
  }
}
// altered proofs of the request itself
PROP(altered, 900) {
  W w = setup(g); Q x = make(g, w, (int) g.below(9)); info(g, w, x); honest(g, w, x); const Block& b = w.o.b;
  for (int i = 0; i < 5; i++) {
    Bytes r2 = req(x.data, x.proof); Q y = x; std::string what; bool must = false;
    switch (g.below(7)) {
      case 5: { what = "another block requested"; if (x.k == LOGS) continue; size_t cm = x.args.rfind(','); if (x.k == TX && cm != std::string::npos && g.coin()) { what = "another index requested"; must = true; y.args = x.args.substr(0, cm + 1) + other_num(g, strtoull(x.args.c_str() + cm + 2, NULL, 16)) + "]"; break; } std::string n = hexn(b.p.number), h = hexs(b.p.hash), to; size_t at = x.args.rfind(n), len = n.size(); if (at == std::string::npos) at = x.args.rfind(h), len = h.size(); if (at == std::string::npos) continue; if (g.chance(1, 3)) to = hexn(w.o2.b.p.number); else if (g.coin()) to = hexs(w.o2.b.p.hash); else if (len == n.size()) to = other_num(g, b.p.number); else { Bytes y2 = b.p.hash; y2[g.below(32)] ^= 1 << g.below(8); to = hexs(y2); } y.args.replace(at, len, to); must = true; break; }
      case 0: case 1: what = "byte altered"; r2[g.below(r2.size())] ^= (uint8_t) g.range(1, 255); break;
      case 2: what = "claimed data"; r2 = req(forged(g, w), x.proof); break;
      case 3: { what = "another state"; if (x.k != ACC && x.k != CALL && x.k != SIM) continue; W w2 = w; State& s = w2.o.b.st; for (auto& e : s.acc) { e.second.nonce++; e.second.balance = Bytes{7, (uint8_t) g.below(256)}; e.second.code.push_back(7); for (auto& k : e.second.storage) k.second = Bytes{9, g.byte()}; } Bytes bp = bproof(g, w.o); // signed root of the true state
          if (x.k == ACC) { int m = (int) g.below(5); Bytes a = pick_addr(g, s); std::vector<Bytes> keys; if (m >= 3) keys.push_back(pick_key(g, acc(s, a))); y.method = ACCOUNT_METHODS[m]; y.args = account_args(m, a, keys, hexn(b.p.number)); y.truth = truth::account(b.st, m, a, keys); y.type = ACCOUNT_TYPES[m]; r2 = req(m == 2 ? uni(2, acc(s, a) ? acc(s, a)->code : Bytes()) : uni(0), uni(1, account_proof(s, a, keys, bp))); }
          else { Bytes a = pick_addr(g, s); Bytes in = pick_key(g, acc(s, a)); y.args = "[{\"to\":" + hexs(a) + ",\"data\":" + hexs(in) + "}," + hexn(b.p.number) + "]"; const Account* ac = acc(b.st, a); y.truth = vm_digest(ac ? ac->code : Bytes(), in, slot_value(ac, in)); r2 = req(uni(0), uni(5, cont({D(call_accounts(g, s, g.coin() ? s : b.st, a, {in})), D(bp)}))); } break; }
      case 4: { what = "another receipt or index"; if (x.k != RCPT && x.k != LOGS && x.k != TX) continue; Bytes bp = bproof(g, w.o); size_t j = g.below(b.txs.size()), k = g.below(b.txs.size()); Block b2 = b; b2.rcpts[j].cum += 5; b2.rcpts[j].logs.push_back({g.rnd(20), {}, {}}); const Block& from = g.coin() ? b2 : b; uint32_t idx = g.chance(1, 4) ? (uint32_t) (g.coin() ? b.txs.size() + g.below(3) : g.u64()) : (uint32_t) k;
          if (x.k == RCPT) { y.args = "[" + hexs(b.txs[j].hash) + "]"; y.truth = rcpt_data(b, j, 0xfffe); Block cl = from; if (idx < cl.rcpts.size() && g.coin()) cl.rcpts[j] = from.rcpts[idx]; r2 = req(uni(5, rcpt_data(cl, j, 0xfffe)), uni(3, cont({D(b.p.txs[j]), F(U(idx, 4)), D(dlist(from.rtrie().proof(ref::rlp((uint64_t) idx)))), D({}), D(bp)}))); }
          else if (x.k == TX) r2 = req(x.data, uni(2, cont({D({}), F(U(idx, 4)), D(bp)})));
          else { std::vector<Bytes> l, ds; bool one = g.coin(); if (one) idx = (uint32_t) j; for (size_t t = 0; t < b.txs.size(); t++) { if (t != j && g.chance(1, 4)) continue; l.push_back(cont({F(U(t == j ? idx : t, 4)), D(dlist((one && t != j ? b : from).rtrie().proof(ref::rlp((uint64_t) t)))), D({})})); } for (size_t t = 0; t < b.txs.size(); t++) for (size_t e = 0; e < from.rcpts[t].logs.size(); e++) ds.push_back(log_data(from.rcpts[t].logs[e], {b.p.hash, b.p.number, b.txs[t].hash, (uint32_t) t, 0})); std::vector<Bytes> all; for (size_t t = 0; t < b.txs.size(); t++) for (size_t e = 0; e < b.rcpts[t].logs.size(); e++) all.push_back(log_data(b.rcpts[t].logs[e], {b.p.hash, b.p.number, b.txs[t].hash, (uint32_t) t, 0})); y.method = "eth_getLogs"; y.args = "[{\"fromBlock\":" + hexn(b.p.number) + ",\"toBlock\":" + hexn(b.p.number) + "}]"; y.truth = dlist(all); r2 = req(uni(6, dlist(ds)), uni(4, dlist({cont({D(bp), D(dlist(l))})}))); } break; }
      default: { what = "missing arguments"; if (x.k == BNUM || x.k == LOCAL) continue; y.args = g.pick(std::vector<std::string>{"[]", "null", "[null]", "[{}]", "{}", "[1]", "[\"\"]"}); if (x.k == LOGS) continue; must = true; }
    }
    g.note("%s %s %s", what.c_str(), y.method.c_str(), y.args.c_str()); Res r = run(w, r2, y); if (r.accepted()) { CHECK(!must, "%s %s accepted with %s", y.method.c_str(), y.args.c_str(), what.c_str()); check_true(g, y, r, what); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
