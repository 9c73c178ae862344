// stand-in for the compiled core: a heap with accounting, and contexts which follow the plan of the running case
export const core = { ids: 1, base: 0 };
export function reset(model) {
  core.heap = new Uint8Array(4096); core.live = new Map(); core.next = 16; core.ctx = new Map(); core.req = new Map(); core.base = core.ids; core.model = model; core.errors = []; core.mod.HEAPU8 = core.heap; core.mod.storage = model.storage;
}
const bad = (m) => { core.errors.push(m); };
function malloc(n) {
  const p = core.next; core.next += ((n + 31) & ~15); if (core.next > core.heap.length) { const h = new Uint8Array(core.next * 2); h.set(core.heap); core.heap = h; core.mod.HEAPU8 = h; } // the memory grows: earlier views are stale
  core.live.set(p, n); core.heap.fill(0xcd, p, p + n); return p;
}
function free(p) { if (!p) return; if (!core.live.has(p)) return bad('free of ' + p + ' which is not allocated'); core.heap.fill(0xdd, p, p + core.live.get(p)); core.live.delete(p); }
function str(p) { if (!p) return null; if (!core.live.has(p)) { bad('string at ' + p + ' is not allocated'); return ''; } const n = core.live.get(p); let e = p; while (e < p + n && core.heap[e]) e++; if (e == p + n) bad('string is not terminated'); return Buffer.from(core.heap.subarray(p, e)).toString('utf8'); }
function bytesAt(p, n) { if (n && (!core.live.has(p) || core.live.get(p) < n)) { bad('buffer at ' + p + ' has less than ' + n + ' bytes'); return new Uint8Array(0); } return core.heap.slice(p, p + n); }
function cstr(s) { const b = Buffer.from(s, 'utf8'); const p = malloc(b.length + 1); core.heap.set(b, p); core.heap[p + b.length] = 0; return p; }
function step(id, kind) {
  const c = core.ctx.get(id); if (!c || c.kind != kind || c.freed) { bad('executed a context which does not exist'); return cstr('{"status":"error","error":"no context"}'); }
  if (!c.pending.some(r => !r.done)) { const rs = c.pending; c.pending = []; const next = core.model.next(c, rs); if (next.requests) { c.pending = next.requests.map(r => { const q = { ...r, id: core.ids++, ctx: c, done: false }; core.req.set(q.id, q); return q; }); } else { c.finished = true; c.steps = (c.steps || 0); if (next.error !== undefined) return cstr(JSON.stringify({ status: 'error', error: next.error })); if (kind == 'proof') { const p = malloc(next.proof.length + 1); core.heap.set(next.proof, p); c.own.push(p); return cstr(JSON.stringify({ status: 'success', result: p, result_len: next.proof.length })); } return cstr('{"status": "success","result": ' + JSON.stringify(next.result) + '}'); } }
  if (++c.polls > 200) { bad('never answers the data requests'); return cstr('{"status":"error","error":"too many polls"}'); }
  return cstr(JSON.stringify({ status: 'waiting', requests: c.pending.filter(r => !r.done).map(r => ({ req_ptr: r.id, chain_id: r.chain_id, encoding: r.encoding, exclude_mask: '' + r.exclude_mask, method: r.method, url: r.url, ...(r.payload ? { payload: r.payload } : {}), type: r.type })) }));
}
function make(kind, x) { const c = { kind, id: core.ids++, pending: [], own: [], polls: 0, ...x }; core.ctx.set(c.id, c); core.model.created(c); return c.id; }
function drop(id, kind) { const c = core.ctx.get(id); if (!c || c.kind != kind) return bad('freed a context which does not exist'); if (c.freed) return bad('freed a context twice'); c.freed = true; c.own.forEach(free); }
function answer(id, f) { if (id < core.base) return bad('a request of an earlier case is still running'); const r = core.req.get(id); if (!r) return bad('answered a request which does not exist'); if (r.ctx.freed) return bad('answered a request of a freed context'); if (r.done) return bad('answered a request twice'); r.done = true; f(r); }
core.mod = {
  _malloc: malloc, _free: free, UTF8ToString: (p) => str(p), _init_storage: () => { },
  stringToUTF8: (s, p, max) => { const b = Buffer.from(s, 'utf8'); let n = Math.min(b.length, max - 1); while (n < b.length && n > 0 && (b[n] & 0xc0) == 0x80) n--; core.heap.set(b.subarray(0, n), p); core.heap[p + n] = 0; if (core.live.get(p) < max) bad('string written behind its buffer'); return n; },
  _c4w_create_proof_ctx: (m, a, chain, flags) => make('proof', { method: str(m), args: str(a), chain: chain, flags }),
  _c4w_free_proof_ctx: (c) => drop(c, 'proof'), _c4w_execute_proof_ctx: (c) => step(c, 'proof'),
  _c4w_create_verify_ctx: (p, n, m, a, chain, cp, keys) => { const checkpoint = str(cp); if (checkpoint && !m) core.model.checkpoint?.(chain, checkpoint); if (!m) return 0; return make('verify', { proof: bytesAt(p, n), method: str(m), args: str(a), chain, checkpoint, keys: str(keys) }); },
  _c4w_free_verify_ctx: (c) => drop(c, 'verify'), _c4w_verify_proof: (c) => step(c, 'verify'),
  _c4w_get_method_type: (chain, m) => core.model.type(chain, str(m)),
  _c4w_req_set_response: (id, p, n, node) => answer(id, (r) => { r.data = bytesAt(p, n); r.node = node; r.ctx.own.push(p); }),
  _c4w_req_set_error: (id, p, node) => answer(id, (r) => { r.error = str(p); r.node = node; }),
  _c4w_req_free: () => { }, _c4w_get_pending_data_request: () => 0,
};
export default async function () { return core.mod; }
