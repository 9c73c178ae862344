// Generated chain content: accounts, transactions, receipts, execution payloads, beacon headers, committees and
// signatures, plus the SSZ encodings of the proofs. Everything is built with the reference code only.
#pragma once
#include "cut.h"
#include "ref.h"
#include "tx.h"
extern "C" {
#include "plugin.h"
#include "verify.h"
#include "ssz.h"
}
#undef bytes
#include <functional>
namespace world {
using ref::NP;
// ---- ssz encoding helpers
struct Fld { Bytes b; bool dyn; };
inline Fld F(const Bytes& b) { return {b, false}; }
inline Fld D(const Bytes& b) { return {b, true}; }
Bytes cont(const std::vector<Fld>& f);
Bytes dlist(const std::vector<Bytes>& e);
inline Bytes uni(uint8_t sel, const Bytes& b = {}) { Bytes r{sel}; r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes U(uint64_t v, size_t n) { return ref::le(v, n); }
Bytes join(const std::vector<Bytes>& l);
// ---- chains
struct Spec { uint64_t id; bool gnosis; int se, ep; std::vector<uint64_t> forks; Bytes genesis; uint64_t wsp; };
const std::vector<Spec>& specs();
unsigned fork_of(const Spec& s, uint64_t slot); // 4 deneb, 5 electra, 6 fulu
inline uint64_t period_of(const Spec& s, uint64_t slot) { return slot >> (s.se + s.ep); }
Bytes domain(const Spec& s, uint64_t epoch);
Bytes signing_root(const Bytes& header_root, const Bytes& domain);
// ---- committees: sk_i = sk_0 + i
struct Committee { Bytes sk0; std::vector<Bytes> pk; Bytes keys, deser, agg; };
const Committee& committee(unsigned i); // cached
Bytes bls_sign(const Committee& c, const Bytes& bits, const Bytes& msg);
Bytes all_bits(unsigned n = 512); // the first n participants
Bytes gen_bits(Gen& g, unsigned n); // n random participants
// ---- beacon headers
struct Header { uint64_t slot = 0, proposer = 0; Bytes parent, state, body; Bytes enc() const; Bytes root() const; NP tree() const; };
struct HeaderProof { int kind = 0; std::vector<Bytes> proof; Header top; uint64_t gindex = 0; std::vector<Header> mids; Bytes bits, sig; Bytes enc() const; };
struct Sync { const Spec* sp; std::function<unsigned(uint64_t)> comm; // committee of a period
  HeaderProof sign(Gen& g, const Header& h, int kind, unsigned participants = 512) const; };
uint64_t historic_gindex(const Spec& s, uint64_t signed_slot, uint64_t summary, uint64_t index);
// ---- execution layer content
struct Account { uint64_t nonce = 0; Bytes balance /*trimmed be*/, code; std::map<Bytes, Bytes> storage; /* key32 -> trimmed value */
  ref::Trie trie() const; Bytes rlp() const; };
struct State { std::map<Bytes, Account> acc; ref::Trie trie() const; };
State gen_state(Gen& g, size_t max_accounts, size_t max_slots, bool code = false);
struct Log { Bytes addr; std::vector<Bytes> topics; Bytes data; };
struct Rcpt { int type = 0; Bytes status; uint64_t cum = 0; Bytes bloom; std::vector<Log> logs; uint64_t dnonce = 0, dver = 0; /* of deposited transactions */ Bytes enc() const; };
Bytes bloom_of(const std::vector<Log>& l);
struct Wd { uint64_t index, validator; Bytes addr; uint64_t amount; Bytes enc() const; };
struct Payload {
  bool gnosis = false; Bytes parent, miner, state, receipts, bloom, randao; uint64_t number = 0, gasLimit = 0, gasUsed = 0, timestamp = 0; Bytes extra; Bytes baseFee /*be trimmed*/; Bytes hash; std::vector<Bytes> txs; std::vector<Wd> wds; uint64_t blobGas = 0, excess = 0;
  Bytes enc() const; NP tree() const; };
struct Block { const Spec* sp; Header h; Payload p; std::vector<txg::Tx> txs; std::vector<Rcpt> rcpts; State st; NP body; ref::Trie rtrie() const; };
struct BlockOpt { size_t max_txs = 3; bool state = true; uint64_t slot = 0; size_t accounts = 6, slots = 4; Bytes graffiti; bool code = false; /* most accounts are contracts */ };
Block gen_block(Gen& g, const Spec& sp, const BlockOpt& o);
inline size_t pick_tx(Gen& g, size_t n) { return g.chance(1, 4) ? n - 1 : g.below(n); }
uint64_t gen_slot(Gen& g, const Spec& sp);
NP body_tree(Gen& g, const Payload& p, bool electra, const Bytes& graffiti);
// ---- storage plugin (in memory)
extern std::map<std::string, Bytes> store;
void install_storage();
void put_period(const Spec& sp, const std::vector<std::pair<uint32_t, unsigned>>& periods, bool deserialized = true);
// ---- requests
Bytes request(const Bytes& data_union, const Bytes& proof_union, const Bytes& sync_union = Bytes{0});
Bytes state_proof(const Block& b, const HeaderProof& hp, int block_kind /*0 none 1 hash 2 number*/);
Bytes account_proof(const State& st, const Bytes& addr, const std::vector<Bytes>& keys, const Bytes& state_proof_enc);
Bytes storage_proof_list(const Account* a, const std::vector<Bytes>& keys);
struct Res { c4_status_t st = C4_ERROR; bool success = false; std::string err; Bytes data; int type = -1; std::string name; int pending = 0; bool accepted() const { return st == C4_SUCCESS && success; } };
extern const char* LATER; // as error of a responder: leave the request open for now
// responder: fills requests (returns the raw response, or false + error)
typedef std::function<bool(data_request_t*, Bytes&, std::string&)> Responder;
Res verify(const Bytes& req, const std::string& method, const std::string& args, uint64_t chain, const Responder& r = nullptr, const Bytes& witness = {});
std::string q(const std::string& s);
inline std::string hexs(const Bytes& b) { return "\"0x" + pbt::hex(b) + "\""; }
std::string hexn(uint64_t v);
std::string other_num(Gen& g, uint64_t n); // a number which is not n: one bit of the 64 flipped or n + k * 2^64
} // namespace world
