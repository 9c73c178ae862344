COMMON = ['blst, intx and evmone are replaced by stand-ins in /verif/shim (BLS12-381 arithmetic checked against RFC 9380 vectors and recorded mainnet signatures)',
          'sanitizers see memory errors only on executed paths']
PROPS = {
 'C14': dict(harness=['c14'], rule='nested string/list structures are generated and encoded by a reference encoder, plus mutated and raw byte strings; non-trivial: more than one item (structures) or more than one byte (raw strings)', technique='property-based testing: round-trip and differential against a reference RLP codec',
   note='random structures and byte strings compared with an independent codec under ASan/UBSan'),
 'C17': dict(quick=15, harness=['c17'], rule='random sequences of buffer operations on growable and fixed buffers, hex/integer/float texts; non-trivial: more than two operations with output, a filled fixed buffer, or a multi-digit value', technique='property-based testing: stateful model of buffers (byte string model) and round-trips',
   note='operation sequences compared step by step with a byte-string model under ASan/UBSan'),
 'C16': dict(quick=10, harness=['c16'], rule='random JSON trees written with random layout and escapes, mutated texts, and schema definitions with (nearly) matching documents; non-trivial: more than two nodes / two characters / container definitions', technique='property-based testing: generated trees as oracle, reference schema validator, arbitrary text under sanitizers',
   note='documents, texts and schemas are generated; the generating tree is the oracle'),
 'C12': dict(quick=5, harness=['c12'], rule='random SSZ types (depth<=3, all kinds incl. unions) with random values, encodings mutated in offsets/lengths/bits, JSON texts; non-trivial: dynamic type or more than 4/8/10 bytes', technique='property-based testing: random types and values against a reference SSZ codec and strict decoder, round-trips under ASan/UBSan',
   note='random types/values against a reference codec; vectors of variable size elements are not supported by the code and not generated'),
 'C13': dict(quick=4, harness=['c13'], rule='random SSZ values, random trees up to 49 levels, random index sets without ancestor relations, single alterations; non-trivial: more than one chunk / witness', technique='property-based testing: differential against a reference SSZ tree, metamorphic alterations of proofs',
   note='roots, proofs and index arithmetic against an independent tree; roots of unions are outside (not implemented by the code)'),
 'C15': dict(quick=2.5, harness=['c15'], rule='random key sets (hashed keys, transaction indexes, 32 byte keys with common prefixes, short keys that are prefixes of each other), insertion orders with overwrites, altered/truncated/extended/spliced proofs, hash-linked crafted nodes; non-trivial: more than one key or proof node', technique='property-based testing: differential against a reference Merkle Patricia trie, metamorphic proof alterations, crafted nodes under ASan/UBSan',
   note='roots after each insertion and proofs compared with an independent trie; deletion is not offered by the code'),
 'C18': dict(quick=4, harness=['c18'], rule='signed transactions of all supported types (legacy with and without EIP-155, 1-4, deposited) with boundary-biased fields, structural malformations of every field, random alterations; non-trivial: every transaction, distinct by hash', technique='property-based testing: generated signed transactions as oracle (reference secp256k1/keccak/RLP), structural malformations, under ASan/UBSan',
   note='the signing record is the oracle; leading zeros in integers and high-s signatures are accepted as on chain history'),
 'C19': dict(quick=20, harness=['c19'], timeout=40, rule='random sequences of set/overwrite/reserve/limit/reset over keys whose buckets collide and wrap around, plus fills beyond the table size; non-trivial: histories with evictions', technique='property-based testing: model-based histories (map with block-wise FIFO eviction)',
   note='every key is looked up after every operation and compared with the model'),
 'C20': dict(quick=12, harness=['c20'], timeout=60, rule='histories of added, repeated, reorganised, skipped and rotated blocks with random logs and random filters answered over partial asynchronous responses; non-trivial: at least one query returned logs', technique='property-based testing: model-based histories (linear scan of the added blocks), asynchronous answers in random order',
   note='numeric block ranges only (tags are resolved by beacon requests, see C23); a reorganisation between two steps of one pending query is not generated'),
 'C21': dict(quick=80, harness=['c21'], timeout=60, rule='histories of set/get/invalidate/cleanup/clock steps/release over up to five contexts, with and without size pressure; non-trivial: a value was shared between contexts', technique='property-based testing: model-based histories with a virtual clock, ownership model of every value, under ASan',
   note='single threaded histories (the cache is used by the event loop thread only)'),
 'C07': dict(quick=8, harness=['c07'], rule='blocks on all four chains and forks >= Deneb with direct, header-chain and historic header proofs signed by generated committees (real BLS12-381), then one alteration of participation, signature, domain, committee, header, link or position; non-trivial: every case, distinct by header root or signature', technique='property-based testing: generated committees/headers/signatures as oracle, single alterations must be rejected',
   note='signatures are made in the slot after the header (the proof format carries no signature slot); the directly preceding committee is tolerated as documented for delayed finality'),
 'C01': dict(quick=6, harness=['c01'], rule='random state and storage tries (0-40 accounts, 0-40 slots, existing and missing accounts and slots) in signed blocks of all chains and forks, requested by tag, hash and number; then byte flips, spliced, dropped, foreign and crafted nodes, changed arguments, claimed results; non-trivial: every case, distinct by body root', technique='property-based testing: generated states as oracle, metamorphic alterations of proofs and arguments, crafted trie content under ASan/UBSan',
   note='block tags are checked for the committed value of the proven block only (which block is the latest cannot be decided by a proof)'),
 'C02': dict(quick=4, harness=['c02'], rule='blocks with 1-12 signed transactions of types 0-4 on all chains and forks, requested by hash, block hash+index and block number+index; then byte flips, other transactions, indexes, block references, base fees, witnesses, arguments and claimed data, and transactions planted outside of the transactions list; non-trivial: every case, distinct by body root', technique='property-based testing: generated signed transactions as oracle, metamorphic alterations of proofs and arguments under ASan/UBSan',
   note='deposited (0x7e) transactions only occur on OP chains and are not part of these blocks; v of legacy transactions above 255 is the known finding of C18'),
 'C03': dict(quick=3, harness=['c03'], rule='blocks with 1-40 transactions and receipts with 0-4 logs on all chains and forks; then byte flips in proof and claimed receipt, receipts with other status/gas/logs/type/recipient/sender, receipts and transactions of other positions, tries and blocks, other block references, dropped or added nodes, other arguments or data kinds, and malformed receipts in signed blocks; non-trivial: every case, distinct by body root or receipt', technique='property-based testing: generated receipts tries as oracle, metamorphic alterations of proofs and claimed data under ASan/UBSan',
   note='gasUsed, effectiveGasPrice and logIndex are not committed by the proof format and outside of the property'),
 'C04': dict(quick=4, harness=['c04'], rule='one to three signed blocks with 1-8 transactions each and random logs, a random selection of them claimed by eth_getLogs or eth_verifyLogs; then byte flips, altered, added, moved and repeated logs, dropped transactions and blocks, foreign receipts, transactions listed twice, other block references, unsigned blocks, other data kinds and arguments; non-trivial: at least one log, distinct by body root', technique='property-based testing: generated receipts as oracle, metamorphic alterations of proofs and claimed logs under ASan/UBSan',
   note='logIndex is documented as unverified; that no matching log is missing cannot be proven by this proof format'),
 'C05': dict(quick=4, harness=['c05'], rule='execution payloads with random header fields, transactions and withdrawals on all chains and forks, requested by hash, number and tag, with and without full transactions, and eth_blockNumber; then byte flips, altered payload fields, other block references, claimed data, other signatures; non-trivial: every case, distinct by body root', technique='property-based testing: generated payloads as oracle, metamorphic alterations of proofs and arguments under ASan/UBSan',
   note='which block is the latest cannot be decided by a proof; withdrawalsRoot is a known finding'),
 'C09': dict(quick=4, harness=['c09'], rule='one signed block with state, transactions, receipts and logs; a proof of one query is paired with the method and arguments of another query (all proof kinds, local, unproofable and unknown methods) and with the claimed data of a third or forged data; non-trivial: every case, distinct by body root', technique='property-based testing: all pairs of generated queries, the generated block is the oracle for each of them',
   note='eth_call runs with a scripted EVM (see C06)'),
 'C06': dict(quick=3, harness=['c06'], rule='random call trees (calls, delegate calls, static calls up to depth 3, reads and writes of balances, code, storage, logs, failing sub-calls, state overrides) over generated states, with code in the proof, cached or fetched; then dropped accounts/slots/code, other states, foreign code, claimed results, other blocks, poisoned code caches; non-trivial: a sub-call, write or log (executions), every case otherwise, distinct by body root', technique='property-based testing: model-based execution histories (journaled state model) through the EVM host interface, metamorphic alterations of proofs under ASan/UBSan',
   note='evmone is not available offline: a scripted VM drives the host interface; value transfers, contract creation, selfdestruct, block context and gas metering are outside (not implemented by the code)'),
 'C08': dict(quick=2, harness=['c08'], timeout=100, rule='histories over stored periods, checkpoints and empty stores on all chains and fork boundaries with storage limits 1-100: honest updates and bootstraps by node, by sync data and by zk sync data in any order; then forged committees, signatures, participants, branches, headers, domains, foreign bootstraps, arbitrary node answers, denied or failing checkpoint servers, storage that loses, truncates or refuses entries, stops after any number of storage operations; non-trivial: every case, distinct by checkpoint or signature', technique='property-based testing: stateful histories against a model of the true committees, forged updates and injected storage faults under ASan/UBSan',
   note='the zk proof verifier is replaced by an oracle that knows the true statements (the verifier itself belongs to C24); the finalized header used for the weak subjectivity comparison is chosen by the node, which the design accepts'),
 'C23': dict(quick=1, harness=['c23'], timeout=100, rule='generated signed chains (all four chains, Deneb and Electra, missed slots, blocks without sufficient participation, period and fork boundaries) served by honest simulated nodes that answer in any order and in several rounds, for every supported method, block reference and prover flag, with and without sync data, zk sync data, historic proofs, warm caches and client states; non-trivial: the request had to be provable and was answered, distinct by block root', technique='property-based testing: simulated chain as oracle, round trip prover -> verifier must succeed and report the chain value',
   note='honest nodes only (garbled responses are C11); proofs of the proof system for zk sync data are replaced by a stand-in that accepts exactly the true statements; two known findings are listed'),
 'C24': dict(quick=3, harness=['c24'], rule='hash inputs of all lengths up to 600 bytes, block boundaries and up to 200 kB; digests, r, s and v from boundary values, own signatures (low and high s), x above the group order and results at infinity; committees of 1-512 keys with known discrete logarithms, repeated and opposite keys, all participation shapes, then one alteration; non-trivial: hashed bytes, recovered keys, valid aggregates', technique='property-based testing: differential against OpenSSL/GMP references, discrete-logarithm oracle and single alterations for BLS aggregates, under ASan/UBSan',
   note='the blst library is not available offline; crypto.c is linked to a stand-in with real BLS12-381 arithmetic, so that the library itself is not part of the check'),
 'C10': dict(quick=8, harness=['c10'], timeout=40, rule='honest requests of every kind on generated signed blocks with up to 8 byte-level, offset-level or splice mutations, random values of the full request schema (Ethereum and OP) built from plausible leafs, random bytes; methods, JSON arguments, chains, trusted checkpoints and node responses arbitrary; non-trivial: every base block, distinct by body root', technique='property-based testing: structure-aware and schema-based fuzzing of the verifier through the binding API under ASan/UBSan with leak accounting',
   note='the EVM and blst are stand-ins; what accepted proofs may claim is checked by C01-C09'),
 'C26': dict(quick=0.5, harness=['c26'], rule='blocks of OP chains (Deneb and Isthmus payloads, signed and deposited transactions, receipts, state) signed by a generated sequencer key; every supported method with honest proofs, then proofs of other requests and blocks, foreign signatures, altered bytes, states, receipts, indexes, claimed data and arguments; non-trivial: every proof, distinct by hash', technique='property-based testing: generated blocks with a reference answer per method, honest proofs must give it, altered ones must be rejected or still give it',
   note='the sequencer address of the configuration is replaced by one with a known key (link-time wrap); the EVM is a stand-in returning a digest of what it has seen'),
 'C22': dict(quick=2, harness=['c22'], rule='histories of added requests, answers, failures and errors on the request list; histories of RPC, beacon and internal requests of a prover with up to 18 nodes giving usable, retryable, failing and garbage answers; whole proofs with up to 16 partly dead or faulty nodes; non-trivial: a request was retried, several requests with an answer, or a proof that needed retries', technique='property-based testing: model-based histories of requests against a reference model of the request list and its node masks, metamorphic runs with failing nodes, under ASan with leak accounting',
   note='the host is part of the model (documented protocol of state.h); requests whose url equals the one of another kind (JSON and SSZ) are not generated'),
 'C11': dict(quick=1, harness=['c11', 'c11op'], timeout=60, rule='questions of every kind on simulated chains, with and without sync data, historic and zk proofs, where one or several answers of the nodes are altered (JSON token and byte mutations, wrong types and lengths, truncation, other SSZ bytes and offsets, errors, empty answers), and altered arguments; non-trivial: an answer was altered', technique='property-based testing: structure-aware fuzzing of the node responses of honest proof runs under ASan/UBSan with leak accounting and a bound on rounds',
   note='what a proof made from wrong data claims is judged by the verifier (C01-C09)'),
 'C27': dict(quick=1.5, harness=['c27'], rule='questions of every kind on simulated chains, asked through the binding API by a host with 1-16 nodes which are slow, fail or answer out of order; method names (known, altered, arbitrary) and arguments with any JSON content; non-trivial: every answered question, distinct by proof or arguments', technique='property-based testing: simulated chain as oracle for the JSON result, requests in the JSON status compared with those of the context, reference table of methods, under ASan/UBSan with leak accounting',
   note='quantities are compared literally; r, s, storage keys and values as numbers, an absent recipient may be null or 0x; server flags are not used by hosts; withdrawalsRoot is the known finding of C05, v above 255 the one of C18'),
 'C28': dict(quick=1, harness=['c28'], rule='histories of witness requests by number (also numbers with equal leading bytes), hash and tag on one or two chains with one or two keys in one prover process, while blocks are added or replaced, time passes and nodes fail; non-trivial: a witness was returned, distinct by the attested block', technique='property-based testing: model of what the node named during the last minute as oracle, reference hash tree root and secp256k1 recovery, under ASan/UBSan',
   note='a reference by number or tag may be answered with a block named up to one minute ago'),
 'C29': dict(quick=1, harness=['c29'], rule='questions of every kind about blocks of simulated OP-Stack chains (five chains, deposited and signed transactions, two payload versions), proven by the OP prover with honest nodes which answer in any order, with every prover flag, cold and warm caches; non-trivial: every verified proof, distinct by its bytes', technique='property-based testing: simulated chain as oracle, round trip prover to verifier, under ASan/UBSan with leak accounting',
   note='blocks are asked by number or latest: the hosts have preconfirmations by number only; withdrawalsRoot is the known finding of C26'),
 'C30': dict(quick=10, thorough=12, js='answers', harness=[], rule='1-4 concurrent requests (provable, local, unprovable and unsupported methods, any JSON arguments incl. non-ASCII text) to a client with 1-4 RPC nodes, 0-3 beacon nodes, 0-3 provers, every strategy, checkpoint servers, with and without cache, checkpoint, keys and stored state; the core asks for 0-2 rounds of 1-3 data requests of each kind with excluded nodes and ends with a result or error; nodes answer late, fail with an HTTP status, with an RPC error or are unreachable; non-trivial: a request was decided by the verifier, distinct by result or error', technique='property-based testing (fast-check): modelled core and modelled nodes as oracle, model-based accounting of contexts and memory of the core',
   note='the TypeScript client runs with a stand-in for the compiled core (no emscripten offline): the C glue of the WebAssembly build is not part of it, the binding API behind it is C27'),
 'C31': dict(quick=20, thorough=12, js='transactions', harness=[], rule='requested transactions with any subset of fields in any notation (number, hex with leading zeros or capitals, data or input, checksummed addresses, contract creations) and what the wallet signs: the same or another recipient, value, data, gas, nonce, fee, type or chain, or bytes which are no transaction; non-trivial: every case, distinct by request and signed transaction', technique='property-based testing (fast-check): the generated transaction is the oracle, single alterations must not be broadcast',
   note='access lists, blob fields and the sender are outside (the verifier does not compare them); decoding of raw transactions is C18'),
 'C32': dict(quick=15, thorough=12, js='filters', harness=[], rule='histories of 3-14 steps: block and log filters, newHeads and logs subscriptions with any block range are created, asked, polled and removed while the chain grows and block number, blocks or logs temporarily cannot be fetched; non-trivial: something was delivered, distinct by history', technique='property-based testing (fast-check): model-based histories of a growing chain, every delivered block and log counted against the model',
   note='no reorganisations (the client follows numbers); newHeads may leave out a block which cannot be fetched; timers are run by the check'),
}
