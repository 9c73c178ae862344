// generated checks of the JavaScript client against a modelled core, modelled nodes and a modelled wallet
import fc from 'fast-check';
import { createHash } from 'node:crypto';
import { writeFileSync, readFileSync } from 'node:fs';
import Client, { Strategy } from './client/index.js';
import { core, reset } from './client/c4w.js';
const C: any = core;
class Failed extends Error { }
function check(c: any, msg: string): asserts c { if (!c) throw new Failed(msg); }
const J = JSON.stringify;
function same(a: any, b: any): boolean { if (a === b) return true; if (typeof a != typeof b || a === null || b === null || typeof a != 'object' || Array.isArray(a) != Array.isArray(b)) return false; const k = Object.keys(a), l = Object.keys(b); return k.length == l.length && k.every(x => x in b && same(a[x], b[x])); }
class Gen {
  i = 0; notes: string[] = []; labels = new Set<string>(); key: string | null = null; constructor(public t: number[]) { }
  raw() { return this.i < this.t.length ? this.t[this.i++] : 0; }
  below(n: number) { return n > 1 ? this.raw() % n : 0; }
  range(a: number, b: number) { return a + this.below(b - a + 1); }
  coin() { return this.below(2) == 1; }
  chance(a: number, b: number) { return this.below(b) >= b - a; }
  pick<T>(l: T[]): T { return l[this.below(l.length)]; }
  bytes(n: number) { const r = new Uint8Array(n); for (let i = 0; i < n; i++) r[i] = this.below(256); return r; }
  hex(n: number) { return '0x' + Buffer.from(this.bytes(n)).toString('hex'); }
  note(s: string) { if (this.notes.length < 60) this.notes.push(s.slice(0, 300)); } label(s: string) { this.labels.add(s); } nontrivial(k: string) { this.key = (this.key || '') + k; }
}
const TEXT = ['', 'a', '0x1', 'latest', 'ä', 'üüüü', '日本語', '"quoted"\\', '\u0001\n', '🦊🦊', 'x'.repeat(70)];
function value(g: Gen, d: number): any { switch (g.below(d ? 7 : 5)) { case 0: return g.hex(g.below(34)); case 1: return g.pick(TEXT); case 2: return g.coin(); case 3: return g.below(100000); case 4: return null; case 5: return Array.from({ length: g.below(4) }, () => value(g, d - 1)); default: { const o: any = {}; for (let n = g.below(4); n--;) o[g.pick(['to', 'data', 'ä', 'topics', 'address', 'x'])] = value(g, d - 1); return o; } } }

// ---- nodes --------------------------------------------------------------------------------------------------
type Call = { url: string, method: string, body: any, accept: string, out: any };
let calls: Call[] = [], inflight = 0; let respond: (c: Call) => { ok?: Uint8Array, json?: any, status?: number, down?: string, delay: number } = () => ({ down: 'no node', delay: 0 });
const tick = () => new Promise<void>(r => setImmediate(r));
async function settle(n = 40) { for (let i = 0; i < n; i++) await tick(); }
(globalThis as any).fetch = async (url: any, o: any = {}) => {
  const c: Call = { url: '' + url, method: (o.method || 'GET').toUpperCase(), body: o.body === undefined ? undefined : JSON.parse(o.body), accept: o.headers?.Accept, out: null }; calls.push(c); const r = respond(c); c.out = r;
  inflight++; for (let i = 0; i < r.delay; i++) await tick(); await tick(); inflight--; if (r.down !== undefined) throw new TypeError(r.down);
  return new Response(r.ok ? r.ok : r.json !== undefined ? J(r.json) : 'failed', { status: r.status || 200 });
};
// what happens within concurrent calls is drawn from the name of the call, not from the order in which they arrive
function sub(salt: number, key: string) { let h = (2166136261 ^ salt) >>> 0; for (const c of key) h = Math.imul(h ^ c.codePointAt(0)!, 16777619) >>> 0; const t: number[] = []; for (let i = 0; i < 400; i++) { h = (Math.imul(h ^ (h >>> 15), 2246822519) + 0x9e3779b9) >>> 0; t.push((h >>> 8) & 0xffff); } return new Gen(t); }
const quiet = () => { };
console.warn = quiet; console.error = quiet; console.log = quiet;
// timers of the client are run by the cases
let timers: { id: number, f: () => void }[] = []; let timer = 1;
(globalThis as any).setTimeout = (f: any) => { timers.push({ id: timer, f }); return timer++; }; (globalThis as any).clearTimeout = (id: any) => { timers = timers.filter(t => t.id != id); };

function begin(model: any) { calls = []; timers = []; reset({ storage: { get: () => null, set: quiet, del: quiet }, type: () => 1, created: quiet, ...model }); }
async function idle() { for (let i = 0, calm = 0; i < 2000 && calm < 12; i++) { calm = inflight || [...C.ctx.values()].some((c: any) => !c.freed) ? (i > 1000 && !inflight ? 99 : 0) : calm + 1; await tick(); } }
function finish() {
  check(!C.errors.length, 'core: ' + C.errors[0]); for (const c of C.ctx.values()) check(c.freed, 'a ' + c.kind + ' context is never freed'); check(C.live.size == 0, C.live.size + ' buffers leak in the memory of the core');
}
const CHAINS = [1, 11155111, 100, 10200];

// ---- C30: answers -------------------------------------------------------------------------------------------
const METHODS: [string, number][] = [['eth_getBalance', 1], ['eth_call', 1], ['eth_getLogs', 1], ['eth_verifyLogs', 1], ['eth_chainId', 4], ['web3_sha3', 4], ['eth_gasPrice', 2], ['debug_trace', 3]];
async function answers(g: Gen) {
  const chainId = g.pick(CHAINS), list = (n: string, k: number) => Array.from({ length: k }, (_, i) => `http://${n}${i}.test` + (g.chance(1, 6) ? '/sub' : ''));
  const cfg: any = { chainId, rpcs: list('rpc', g.range(1, 4)), beacon_apis: list('beacon', g.range(0, 3)), prover: list('prover', g.coin() ? g.range(1, 3) : 0), checkpointz: list('checkpoint', g.chance(1, 3) ? g.range(1, 3) : 0), zk_proof: g.coin() };
  if (g.coin()) cfg.trusted_checkpoint = g.hex(32); if (g.chance(1, 3)) cfg.checkpoint_witness_keys = g.hex(20); const strat = g.below(4); cfg.proofStrategy = [undefined, Strategy.VerifiedOnly, Strategy.VerifyIfPossible, Strategy.WarningWithFallback][strat]; const warnings: string[] = []; cfg.warningHandler = async (r: any, m: string) => { warnings.push(J(r)); };
  const cached = new Map<string, Uint8Array>(), stored: string[] = []; if (g.chance(1, 3)) cfg.cache = { cacheable: (r: any) => r.url.includes('cacheable'), get: (r: any) => cached.get(r.url), set: (r: any, d: Uint8Array) => { cached.set(r.url, d.slice()); stored.push(r.url + ' ' + Buffer.from(d).toString('hex')); } };
  const state = g.chance(1, 3) ? g.bytes(g.range(1, 9)) : null, hexstate = '0x' + (state ? Buffer.from(state).toString('hex') : '');
  const given: any[] = [], ctxs: any[] = [], salt = g.raw(), salt2 = g.raw(), quietNodes = g.coin(), echoed = g.coin();
  begin({
    storage: { get: (k: string) => k == 'states_' + chainId ? state : null, set: quiet, del: quiet },
    checkpoint: (chain: bigint, cp: string) => { given.push([chain, cp]); },
    type: (_: any, m: string) => METHODS.find(x => x[0] == m)?.[1] ?? 3,
    created: (c: any) => {
      const nth = ctxs.filter(x => x.kind == c.kind && x.method == c.method && x.args == c.args).length; ctxs.push(c); check(c.chain === BigInt(chainId), 'context for chain ' + c.chain); const key = [c.kind, c.method, c.args, nth].join('|'), h = sub(salt, key);
      c.rounds = Array.from({ length: h.below(3) }, (_, a) => Array.from({ length: h.range(1, 3) }, (_, b) => {
        const id = `${c.kind[0]}${c.method}-${createHash('sha256').update(c.args).digest('hex').slice(0, 16)}-${nth}-${a}-${b}`, type = h.pick(['beacon_api', 'eth_rpc', 'checkpointz', 'prover']), rpc = type == 'eth_rpc'; return { type, url: rpc ? '' : (h.coin() ? '/' : '') + 'eth/v1/' + (h.chance(1, 4) ? 'cacheable/' + h.below(2) : 'r/' + id), chain_id: chainId, encoding: rpc ? 'json' : h.pick(['json', 'ssz']), method: rpc ? 'post' : 'get', exclude_mask: h.chance(1, 3) ? h.below(16) : 0, payload: rpc ? { jsonrpc: '2.0', id: 1, method: 'm:' + id, params: [h.pick(TEXT)] } : undefined, no: id };
      }));
      c.end = h.chance(1, 5) ? { error: h.pick(['core error ä', 'invalid "proof"', 'HTTP error!']) } : c.kind == 'proof' ? { proof: h.bytes(h.below(60)) } : c.method == 'eth_chainId' ? { result: '0x' + chainId.toString(16) } : { result: h.chance(1, 5) ? null : { rpc: key, x: value(h, 2) } };
    },
    next: (c: any, done: any[]) => { for (const r of done) { r.checked = true; c.seen = (c.seen || []).concat(r); } return c.rounds.length ? { requests: c.rounds.shift() } : c.end; },
  });
  respond = (c) => { const h = sub(salt2, c.url + J(c.body ?? null) + calls.filter(x => x.url == c.url && same(x.body, c.body)).length), delay = h.below(4), k = quietNodes ? 0 : h.below(6); if (k == 4) return { status: h.pick([400, 404, 500, 503]), delay }; if (k == 5) return { down: 'fetch failed', delay }; if (c.url.endsWith('/finality_checkpoints')) return !quietNodes && h.chance(1, 4) ? { ok: h.bytes(h.below(9)), delay } : { json: h.chance(1, 4) ? { data: {} } : { data: { finalized: { root: h.hex(32) } } }, delay }; if (c.url.startsWith('http://rpc') && c.body?.jsonrpc && !('' + c.body.method).startsWith('m:')) return h.chance(1, 6) ? { json: { id: 1, error: { message: 'node error' } }, delay } : (echoed && ctxs.find(x => x.kind == 'verify' && x.method == c.body.method && same(JSON.parse(x.args), c.body.params) && x.end.result) ? { json: { id: 1, result: ctxs.find(x => x.kind == 'verify' && x.method == c.body.method && same(JSON.parse(x.args), c.body.params)).end.result }, delay } : { json: { id: 1, result: { rpc: c.url, x: value(h, 1) } }, delay }); return { ok: h.bytes(h.below(40)), delay }; };
  const jobs = Array.from({ length: g.range(1, 4) }, (_, i) => { const [method, type] = g.pick(METHODS); const params = method == 'eth_verifyLogs' ? Array.from({ length: g.below(3) }, () => ({ transactionIndex: g.hex(1), blockNumber: g.hex(2), data: value(g, 1) })) : ['job' + i, ...Array.from({ length: g.below(3) }, () => value(g, 2))]; return { i, method, type, params }; });
  if (new Set(jobs.map(j => J([j.method, j.params]))).size < jobs.length) return; // jobs are told apart by their arguments
  const client = new Client(cfg);
  g.note(J({ chainId, rpcs: cfg.rpcs, prover: cfg.prover, beacon: cfg.beacon_apis, strategy: strat }));
  const res = await Promise.all(jobs.map(async j => { g.note(j.method + ' ' + J(j.params)); try { return { ok: await client.request({ method: j.method, params: j.params }) as any }; } catch (e: any) { return { err: e }; } })); await idle();
  const args = (c: any) => { try { return JSON.parse(c.args); } catch { return undefined; } };
  for (const c of ctxs) check(c.method == 'eth_chainId' || jobs.some(j => j.method == c.method && same(args(c), j.params)), `the core got ${c.method} ${c.args}, which was never requested`);
  // every data request: tried in order at the allowed nodes, answered with the bytes and the index of the first which works
  const byUrl = new Map<string, any[]>(); for (const c of ctxs) for (const r of c.seen || []) { const k = r.url || J(r.payload); byUrl.set(k, (byUrl.get(k) || []).concat(r)); }
  for (const c of ctxs) for (const r of c.seen || []) {
    const servers: string[] = r.type == 'checkpointz' ? [...cfg.checkpointz, ...cfg.beacon_apis, ...cfg.prover] : r.type == 'beacon_api' ? [...cfg.beacon_apis, ...cfg.prover] : r.type == 'prover' ? cfg.prover : cfg.rpcs;
    if (r.url.includes('cacheable')) { if (cfg.cache) { if (!r.error) { check(stored.includes(r.url + ' ' + Buffer.from(r.data).toString('hex')), 'cached response altered'); g.label('cached'); } } continue; } // shared urls cannot be told apart
    const mine = calls.filter(x => r.type == 'eth_rpc' ? x.body?.method == r.payload.method : x.url.endsWith('/r/' + r.no)); const want = servers.map((s, i) => ({ s, i })).filter(x => !(r.exclude_mask & (1 << x.i))); let n = 0, hit: any = null;
    for (const w of want) { const m = mine[n]; check(m, `${r.type} request ${r.no} was not sent to ${w.s} (mask ${r.exclude_mask})`); check(m.url == w.s + (r.url ? (r.url.startsWith('/') ? '' : '/') + r.url : ''), `request ${r.no} sent to ${m.url}, expected node ${w.s}`); check(m.method == r.method.toUpperCase(), 'method ' + m.method); check(same(m.body, r.payload), 'payload ' + J(m.body)); check(m.accept == (r.encoding == 'json' ? 'application/json' : 'application/octet-stream'), 'accept ' + m.accept); n++; if (m.out.ok) { hit = { w, d: m.out.ok }; break; } }
    check(mine.length == n, `request ${r.no} was sent ${mine.length} times, expected ${n}`);
    if (hit) { check(r.data && Buffer.compare(r.data, hit.d) == 0, `response of request ${r.no} altered`); check(r.node == hit.w.i, `response of node ${hit.w.i} reported as node ${r.node}`); } else check(r.error, `request ${r.no} failed at all nodes, but no error is reported`);
    g.label('data request ' + (hit ? n > 1 ? 'fallback' : 'first node' : 'failed'));
  }
  // the checkpoint to start with
  const cps = calls.filter(c => c.url.endsWith('/finality_checkpoints')), root = (c: Call) => c.out.json?.data?.finalized?.root, cpServers = [...cfg.checkpointz, ...cfg.beacon_apis, ...cfg.prover]; let checkpoint = cfg.trusted_checkpoint;
  if (cfg.checkpointz.length && !cfg.zk_proof && !checkpoint && !state) {
    cps.forEach((c, k) => check(c.url == cpServers[k] + '/eth/v1/beacon/states/head/finality_checkpoints' && c.method == 'GET', 'checkpoint asked at ' + c.url)); const h = cps.findIndex(c => root(c)); checkpoint = h < 0 ? undefined : root(cps[h]);
    check(cps.length == (h < 0 ? cpServers.length : h + 1), `checkpoint asked at ${cps.length} of ${cpServers.length} nodes`); g.label(checkpoint ? 'checkpoint fetched' : 'no checkpoint'); if (checkpoint) check(given.some(x => x[0] === BigInt(chainId) && x[1] == checkpoint), 'the checkpoint is not given to the core');
  } else check(!cps.length, 'a checkpoint is fetched, although one is known or none is wanted');
  for (const j of jobs) {
    const r = res[j.i], vs = ctxs.filter(c => c.kind == 'verify' && c.method == j.method && same(args(c), j.params)), v = vs[0], ok = !('err' in r), sent = calls.filter(c => c.body?.jsonrpc && c.body?.method == j.method && same(c.body.params, j.params) && c.url.startsWith('http://rpc'));
    const where = `${j.method} ${J(j.params)}: `; const unverified = () => { const h = sent.find(c => c.out.json && !c.out.json.error); sent.forEach((c, k) => check(c.url == cfg.rpcs[k], where + 'nodes not used in order')); if (h) { check(ok && same(r.ok, h.out.json.result), where + 'result of the node altered'); } else { check(!ok, where + 'answered without any node'); check(sent.length == cfg.rpcs.length, where + `only ${sent.length} of ${cfg.rpcs.length} nodes were tried`); } };
    if (j.type == 4 || j.type == 1) {
      let proof: Uint8Array | null = new Uint8Array();
      if (j.type == 1) { if (cfg.prover.length) { const cleaned = j.method == 'eth_verifyLogs' ? j.params.map((p: any) => ({ transactionIndex: p.transactionIndex, blockNumber: p.blockNumber })) : j.params; const asked = calls.filter(c => c.url.startsWith('http://prover') && c.body?.method == j.method && same(c.body.params, cleaned)); const h = asked.find(c => c.out.ok); asked.forEach((c, k) => { check(c.url == cfg.prover[k], where + 'provers not used in order'); check(c.body.c4 == hexstate && c.body.zk_proof === cfg.zk_proof && c.body.signers == (cfg.checkpoint_witness_keys || '0x'), where + 'prover asked with ' + J(c.body)); }); if (!h) check(asked.length == cfg.prover.length, where + `only ${asked.length} of ${cfg.prover.length} provers were tried`); proof = h ? h.out.ok : null; }
        else { const ps = ctxs.filter(c => c.kind == 'proof' && c.method == j.method && same(args(c), j.params)); check(ps.length == 1, where + ps.length + ' proofs created'); proof = ps[0].end.error === undefined ? ps[0].end.proof : null; } }
      check(vs.length == (proof ? 1 : 0) || (j.method == 'eth_chainId'), where + vs.length + ' verifications'); if (v && j.method != 'eth_chainId') { check(Buffer.compare(v.proof, proof!) == 0, where + 'another proof was verified'); check(((v.checkpoint ?? undefined) === checkpoint || (jobs.length > 1 && !cfg.trusted_checkpoint && !v.checkpoint)) && (v.keys ?? undefined) === cfg.checkpoint_witness_keys, where + 'checkpoint or keys not passed'); }
      const good = v && v.end.error === undefined;
      if (strat == 3 && j.type == 1) { unverified(); if (ok) { const w = warnings.includes(J({ method: j.method, params: j.params })), x: any = r.ok; check(w || good, where + 'not verified, but no warning'); if (good && v.end.result !== null && echoed && same(v.end.result, x)) { check(!w, where + 'warning for the verified result'); g.label('equal'); } if (good && (v.end.result === null ? x !== null : x.rpc !== v.end.result.rpc)) { check(w, where + 'the node gives another result, but no warning'); g.label('warning'); } } g.label('fallback strategy'); continue; }
      if (good) { check(ok && same(r.ok, v.end.result), where + 'verified ' + J(v.end.result) + ', returned ' + (ok ? J(r.ok) : 'error ' + (r as any).err)); g.label('verified'); g.nontrivial(J(v.end.result)); } else { check(!ok, where + 'returned ' + J((r as any).ok) + ' without verification'); g.label('rejected'); if (v) check(('' + (r as any).err.message).includes(v.end.error), where + 'error of the core lost: ' + (r as any).err.message); g.nontrivial('e' + (r as any).err.message); }
      check(!sent.length, where + 'also sent to the rpc nodes');
    }
    else if (j.type == 3 && strat == 1) { check(!ok && (r as any).err.code == 4200, where + 'unsupported method answered'); check(!sent.length, where + 'sent to the nodes'); g.label('unsupported'); }
    else { check(!vs.length, where + 'verified'); unverified(); g.label('unproofable'); }
  }
  finish();
}

// ---- C31: signed transactions -------------------------------------------------------------------------------
function quantity(g: Gen, v: bigint): any { const h = v.toString(16); switch (g.below(6)) { case 0: return '0x' + h.toUpperCase(); case 1: return '0x' + (h.length % 2 ? '0' : '') + h; case 2: return '0x' + h.padStart(64, '0'); case 3: if (v < 2n ** 53n) return Number(v); default: return '0x' + h; } }
async function transactions(g: Gen) {
  const chainId = g.pick(CHAINS), dyn = g.coin(), num = () => g.chance(1, 4) ? BigInt(g.below(3)) : g.chance(1, 4) ? 16n ** BigInt(g.below(20)) : BigInt(g.hex(g.range(1, 12)));
  const tx: any = { to: g.chance(1, 6) ? null : g.hex(20), value: num(), input: g.coin() ? g.hex(g.below(40)) : g.pick(['0x', '0x00', '0x0000', '0x00ab', '0xab', '0x0']), gas: num(), nonce: num(), chainId: BigInt(chainId), from: g.hex(20) }; if (tx.input == '0x0') tx.input = '0x'; if (tx.to === null && tx.input == '0x') tx.input = '0x60';
  if (dyn) { tx.maxFeePerGas = num(); tx.maxPriorityFeePerGas = num(); } else tx.gasPrice = num();
  // what the user asks for: the wallet completes the rest
  const req: any = { from: tx.from }; const mixed = (h: string) => g.coin() ? '0x' + [...h.slice(2)].map((c, i) => (tx.nonce >> BigInt(i % 7)) & 1n ? c.toUpperCase() : c).join('') : h;
  if (tx.to !== null) req.to = mixed(tx.to); else if (g.chance(1, 3)) req.to = null;
  if (tx.value != 0n || g.coin()) req.value = quantity(g, tx.value); if (tx.input != '0x' || g.coin()) { const d = mixed(tx.input); switch (g.below(3)) { case 0: req.input = d; break; case 1: req.data = d; break; default: req.input = req.data = d; } }
  for (const f of ['gas', 'nonce', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas']) if (tx[f] !== undefined && g.coin()) req[f] = quantity(g, tx[f]);
  // what the wallet signs
  const s: any = { ...tx }; let match = true; const kind = g.below(14); const other = (v: bigint) => g.coin() ? v + 1n : g.coin() ? v * 16n + (v ? 0n : 1n) : v ^ (1n << BigInt(g.below(80)));
  switch (kind) {
    case 0: case 1: case 2: break;
    case 3: s.to = s.to === null || g.chance(1, 5) ? (s.to === null ? g.hex(20) : null) : (() => { const b = Buffer.from(s.to.slice(2), 'hex'); b[g.below(20)] ^= 1 << g.below(8); return '0x' + b.toString('hex'); })(); match = false; g.label('other recipient'); break;
    case 4: case 5: s.value = other(s.value); match = false; g.label('other value'); break;
    case 6: case 7: { const b = s.input.slice(2); const o = g.pick(['0x' + b + '00', '0x00' + b, b.length ? '0x' + b.slice(2) : '0x01', b.startsWith('00') ? '0x' + b.slice(2) : '0x' + b + 'ff']); s.input = o; match = false; g.label('other data'); break; }
    case 8: case 9: { const f = g.pick(['gas', 'nonce', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas']); if (s[f] === undefined) break; s[f] = other(s[f]); if (req[f] !== undefined) match = false; g.label('other ' + f); break; }
    case 10: s.chainId = BigInt(g.pick(CHAINS.filter(c => c != chainId).concat([chainId * 16, 0x100000000 + chainId]))); match = false; g.label('other chain'); break;
    case 11: if (req.gasPrice !== undefined) { delete s.gasPrice; s.maxFeePerGas = tx.gasPrice + 1n; s.maxPriorityFeePerGas = tx.gasPrice; s.gasPrice = tx.gasPrice + 1n; match = false; } else if (req.maxFeePerGas !== undefined && tx.maxFeePerGas != 0n) { delete s.maxFeePerGas; delete s.maxPriorityFeePerGas; s.gasPrice = tx.maxFeePerGas; match = false; } g.label('other type'); break;
    case 12: break; // cannot be decoded
    default: break;
  }
  const dec: any = { to: s.to, input: s.input, from: s.from }; for (const f of ['value', 'gas', 'nonce', 'chainId', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas']) if (s[f] !== undefined) dec[f] = '0x' + s[f].toString(16); if (dec.to === null) dec.to = g.coin() ? '0x' : null;
  const raw = g.hex(g.range(3, 50)); g.note('request ' + J(req)); g.note('signed ' + J(dec) + (kind == 12 ? ' invalid' : ''));
  begin({ type: () => 2, next: (c: any) => c.method == 'colibri_decodeTransaction' ? (same(JSON.parse(c.args), [raw]) ? (kind == 12 ? { error: 'invalid tx' } : { result: dec }) : { error: 'not the signed transaction' }) : { result: '0x1' } });
  respond = () => ({ json: { id: 1, result: '0xhash' }, delay: 0 }); const asked: any[] = [];
  const client = new Client({ chainId: g.coin() ? chainId : '' + chainId, rpcs: ['http://rpc0.test'], prover: [], beacon_apis: [], checkpointz: [], verifyTransactions: true, warningHandler: async () => { }, proofStrategy: Strategy.VerifiedOnly, fallback_provider: { request: async (r: any) => { asked.push(r); return raw; } } } as any);
  let r: any; try { r = { ok: await client.request({ method: 'eth_sendTransaction', params: [req] }) }; } catch (e: any) { r = { err: e }; }
  const sent = calls.filter(c => c.body?.method == 'eth_sendRawTransaction');
  check(asked.length == 1 && asked[0].method == 'eth_signTransaction' && same(asked[0].params, [req]), 'the wallet was asked for ' + J(asked)); check(calls.length == sent.length, 'other calls: ' + J(calls));
  if (match && kind != 12) { check(!r.err, 'the matching transaction is rejected: ' + r.err?.message); check(r.ok === '0xhash' && sent.length == 1 && same(sent[0].body.params, [raw]), 'sent ' + J(sent)); g.label('sent'); } else { check(!sent.length, 'broadcast, although it is not what was requested'); check(r.err, 'reported as sent'); g.label('refused'); }
  g.nontrivial(J([req, dec])); finish();
}

// ---- C32: filters and subscriptions -------------------------------------------------------------------------
async function filters(g: Gen) {
  const chainId = g.pick(CHAINS); let head = g.pick([1, 5, 200, 70000]); const B = (n: number) => ({ hash: '0xb' + n.toString(16), number: '0x' + n.toString(16) }), hasLog = (n: number) => (n * 2654435761 >>> 7) % 3 > 0; const start = head; let failNumber = 0, failBlock = new Set<number>(), failLogs = 0;
  const fx = (n: number) => '0x' + n.toString(16);
  begin({
    type: () => 1, next: (c: any) => {
      const a = JSON.parse(c.args); if (c.method == 'eth_blockNumber') return failNumber ? { error: 'fail' } : { result: fx(head) };
      if (c.method == 'eth_getBlockByNumber') { const n = parseInt(a[0]); if (!(n <= head)) return { result: null }; return failBlock.has(n) ? { error: 'fail' } : { result: B(n) }; }
      if (c.method == 'eth_getLogs') { if (failLogs) return { error: 'fail' }; const at = (x: any, d: number) => x === undefined || x == 'latest' || x == 'pending' ? d : x == 'earliest' ? 0 : parseInt(x); const from = at(a[0].fromBlock, head), to = at(a[0].toBlock, head); const r = []; for (let n = Math.max(from, start - 3); n <= Math.min(to, head); n++) if (hasLog(n)) r.push({ blockNumber: fx(n), address: a[0].address ?? null }); return { result: r }; }
      return { result: '0x' + chainId.toString(16) };
    }
  });
  respond = () => ({ ok: new Uint8Array([1]), delay: 0 });
  const client: any = new Client({ chainId, rpcs: ['http://rpc0.test'], prover: ['http://prover0.test'], beacon_apis: [], checkpointz: [], warningHandler: async () => { }, trusted_checkpoint: g.hex(32) } as any);
  const events = new Map<string, any[]>(); client.on('message', (m: any) => { check(m.type == 'eth_subscription', 'message ' + m.type); const k = m.data.subscription; events.set(k, (events.get(k) || []).concat([m.data.result])); });
  type S = { id: string, kind: string, got: any[], from: number | null, to: number | null, addr: any, active: boolean, skipped: Set<number> }; const subs: S[] = []; let delivered = 0;
  const take = (s: S) => { for (const e of events.get(s.id) || []) { if (s.kind == 'logs') s.got.push(...e); else s.got.push(e); } events.delete(s.id); };
  // exactly once and in order, up to the head seen by the last successful poll
  const judge = (s: S, upto: number | null) => {
    const nums = s.got.map(x => s.kind == 'block' ? parseInt(('' + x).slice(3), 16) : parseInt(s.kind == 'newHeads' ? x.number : x.blockNumber)); const want: number[] = [];
    if (s.from !== null && upto !== null) for (let n = s.from; n <= Math.min(upto, s.to ?? upto); n++) if (s.kind == 'block' || s.kind == 'newHeads' ? !s.skipped.has(n) : n >= start - 3 && hasLog(n)) want.push(n);
    check(same(nums, want), `${s.kind} ${s.id} delivered ${J(nums)}, expected ${J(want)}`); if (s.kind == 'log' || s.kind == 'logs') for (const l of s.got) check(l.address === s.addr, 'log of another filter'); delivered += nums.length ? 1 : 0;
  };
  const last = new Map<S, number | null>();
  const polled = (s: S) => { // what one poll does in the model
    if (failNumber) return; if (s.kind == 'block' || s.kind == 'newHeads') { if (s.from === null) { s.from = s.kind == 'block' ? head : head + 1; if (s.kind == 'newHeads') { last.set(s, head); return; } last.set(s, head - 1); } let n = last.get(s)! + 1; for (; n <= head; n++) { if (failBlock.has(n)) { if (s.kind == 'block') break; s.skipped.add(n); } } last.set(s, n - 1); }
    else { if (failLogs) return; if (s.from === null) s.from = head; last.set(s, head); }
  };
  for (let ops = g.range(3, 14); ops--;) {
    const filterOps = subs.filter(s => s.active && (s.kind == 'block' || s.kind == 'log')), subOps = subs.filter(s => s.active && (s.kind == 'newHeads' || s.kind == 'logs'));
    switch (subs.length ? g.below(9) : 0) {
      case 0: { const kind = g.pick(['block', 'log', 'newHeads', 'logs']); const addr = g.coin() ? g.hex(20) : null, p: any = addr ? { address: addr } : {}; const s: S = { id: '', kind, got: [], from: null, to: null, addr, active: true, skipped: new Set() };
        if (kind == 'log' || kind == 'logs') { switch (g.below(5)) { case 0: { const f = Math.max(1, head - g.below(3)); p.fromBlock = fx(f); s.from = f; break; } case 1: { const f = head + g.range(1, 3); p.fromBlock = fx(f); s.from = f; break; } case 2: p.fromBlock = 'latest'; break; case 3: if (g.coin()) { p.fromBlock = 'earliest'; s.from = 0; } } if (g.chance(1, 4)) { const t = head + g.below(4); p.toBlock = fx(t); s.to = t; } else if (g.coin()) p.toBlock = 'latest'; }
        s.id = await client.request(kind == 'block' ? { method: 'eth_newBlockFilter' } : kind == 'log' ? { method: 'eth_newFilter', params: [p] } : { method: 'eth_subscribe', params: kind == 'logs' ? [kind, p] : [kind] }); g.note(`${kind} ${J(p)} -> ${s.id} at ${head}`); check(typeof s.id == 'string' && !subs.some(x => x.id == s.id), 'id ' + s.id + ' is used twice'); subs.push(s); last.set(s, null); if (kind == 'newHeads' || kind == 'logs') { /* first poll follows */ } break; }
      case 1: case 2: head += g.range(1, 3); g.note('head ' + head); break;
      case 3: case 4: { if (!filterOps.length) break; const s = g.pick(filterOps); let r: any; try { r = await client.request({ method: 'eth_getFilterChanges', params: [s.id] }); } catch (e: any) { check(false, `changes of ${s.kind} ${s.id}: ${e.message}`); } check(Array.isArray(r), 'changes ' + J(r)); s.got.push(...r); polled(s); g.note(`changes ${s.id} ${r.length}`); judge(s, last.get(s)!); break; }
      case 5: case 6: { const t = timers; timers = []; t.forEach(x => x.f()); const gone = subOps.length && g.chance(1, 4) ? g.pick(subOps) : null; if (gone) { await settle(g.below(12)); check(await client.request({ method: 'eth_unsubscribe', params: [gone.id] }) === true, 'unsubscribe during a poll'); events.delete(gone.id); gone.active = false; g.note('unsubscribe ' + gone.id + ' during the poll'); g.label('removed during a poll'); } await settle(); const rest = subOps.filter(s => s.active); for (const s of rest) { take(s); polled(s); } g.note('poll'); check(timers.length == rest.length, `${timers.length} polls scheduled for ${rest.length} subscriptions`); for (const s of rest) judge(s, last.get(s)!); break; }
      case 7: { failNumber = g.chance(1, 4) ? 1 : 0; failLogs = g.chance(1, 4) ? 1 : 0; failBlock.clear(); if (g.chance(1, 3)) failBlock.add(head + g.below(3)); g.note(`faults ${failNumber} ${failLogs} ${[...failBlock]}`); break; }
      default: { if (!subs.length) break; const s = g.pick(subs), isSub = s.kind == 'newHeads' || s.kind == 'logs', wrong = g.chance(1, 3), m = isSub != wrong ? 'eth_unsubscribe' : 'eth_uninstallFilter'; const r = await client.request({ method: m, params: [s.id] }); check(r === (s.active && !wrong), `${m} ${s.id} returns ${r}`); if (!wrong) s.active = false; g.note(`${m} ${s.id}`); if (!s.active && !isSub) { let e: any; try { await client.request({ method: 'eth_getFilterChanges', params: [s.id] }); } catch (x) { e = x; } check(e, 'changes of a removed filter'); } }
    }
    for (const s of subs) if (!s.active) check(!(events.get(s.id) || []).length, 'event for removed subscription ' + s.id);
  }
  for (const s of subs) if (s.got.length) g.label('delivered ' + s.kind); if (delivered) g.nontrivial(g.notes.join()); finish();
}

// ---- runner -------------------------------------------------------------------------------------------------
const ALL: Record<string, [(g: Gen) => Promise<void>, number]> = { answers: [answers, 4000], transactions: [transactions, 9000], filters: [filters, 4000] };
async function one(f: (g: Gen) => Promise<void>, t: number[]) { const g = new Gen(t); await f(g); return g; }
async function main() {
  const [mode, names, a, b, rep, st] = process.argv.slice(2);
  if (mode == 'replay') { const x = JSON.parse(readFileSync(names, 'utf8')); const g = new Gen(x.tape); try { await ALL[x.prop][0](g); } catch (e: any) { process.stdout.write(`${x.prop}: ${e instanceof Failed ? e.message : e.stack}\n  case: ${g.notes.join('; ')}\n`); process.exit(1); } process.stdout.write('replay: holds\n'); process.exit(0); }
  const seed = parseInt(a), scale = parseFloat(b); const out: any = { evaluations: 0, discarded: 0, distinct_nontrivial: 0, samples: [], labels: {}, per_prop: {}, known_hits: {}, time_capped: false, failed: false, confirmed: 'no', harness_error: false };
  for (const name of names.split(',')) {
    const [f, runs] = ALL[name], seen = new Set<string>(); let n = 0, first = '';
    const res = await fc.check(fc.asyncProperty(fc.array(fc.nat(0xffff), { minLength: 0, maxLength: 500, size: 'max' }), async (tape) => {
      n++; const g = new Gen(tape); try { await f(g); } catch (e: any) { if (!first) first = e.message + ' | ' + g.notes.join('; '); await idle(); throw e; } for (const l of g.labels) out.labels[l] = (out.labels[l] || 0) + 1; if (g.key !== null) { if (!seen.has(g.key) && seen.size < 3) out.samples.push((name + ': ' + g.notes.join('; ')).slice(0, 800)); seen.add(g.key); }
    }), { seed, numRuns: Math.max(1, Math.round(runs * scale)), endOnFailure: false, interruptAfterTimeLimit: 240000, markInterruptAsFailure: false });
    out.evaluations += n; out.distinct_nontrivial += seen.size; out.per_prop[name] = [n, seen.size];
    if (res.failed) { const tape = res.counterexample![0] as number[]; const g = new Gen(tape); let msg = ''; try { await f(g); } catch (e: any) { msg = e instanceof Failed ? e.message : '' + e.stack; } out.failed = true; out.confirmed = msg ? 'yes' : 'not reproduced'; out.prop = name; out.msg = msg || 'only while searching: ' + first; out.trace = g.notes.join('; '); writeFileSync(rep, J({ prop: name, tape, msg, trace: g.notes })); break; }
  }
  writeFileSync(st, J(out)); process.exit(0);
}
main().catch(e => { process.stdout.write('' + e.stack + '\n'); process.exit(3); });
