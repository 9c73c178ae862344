#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- builds from /repo, runs the property's generated checks, writes evidence/ID.json.
   check.py ID replay FILE       -- re-runs one saved failing case."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/lib')
import build as BLD
from props import PROPS
def known_for(pid):
    out = []
    f = V + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]; kid, _, text = rest.partition(' '); out.append((kid.split('=', 1)[1], text))
    return out
NODE = '/opt/veriftools/node/node_modules'
def js_bundle(pid):
    # the sources of the JavaScript client with a stand-in for the compiled core, bundled together with the checks
    d = '%s/build/js-%s-%d' % (V, pid, os.getpid()); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(BLD.R + '/bindings/emscripten/src', d + '/client'); shutil.copy(V + '/js/c4w.js', d + '/client/c4w.js'); shutil.copy(V + '/js/main.ts', d + '/main.ts'); open(d + '/c4w.wasm', 'w').close()
    subprocess.run([NODE + '/.bin/esbuild', 'main.ts', '--bundle', '--platform=node', '--format=esm', '--target=es2022', '--outfile=main.mjs', '--log-level=error'], cwd=d, env=dict(os.environ, NODE_PATH=NODE), check=True)
    return d
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    cfg = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    known = known_for(pid)
    env = dict(os.environ, PBT_KNOWN=','.join(k for k, _ in known),
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=4000',
               UBSAN_OPTIONS='print_stacktrace=1', REPO=BLD.R, VERIF=V, PBT_CASE_TIMEOUT=str(cfg.get('timeout', 120)))
    jsdir = None
    if 'js' in cfg: jsdir = js_bundle(pid); bins = [(cfg['js'], jsdir)]
    else:
        bins = [(h, BLD.build(h, **cfg.get('build', {}))) for h in cfg['harness']]
        BLD.prune()
    try: return decide(pid, tier, cfg, seed, known, env, bins)
    finally:
        if jsdir: shutil.rmtree(jsdir, ignore_errors=True)
def decide(pid, tier, cfg, seed, known, env, bins):
    if tier == 'replay':
        for n, b in bins:
            r = subprocess.run((['node', b + '/main.mjs'] if 'js' in cfg else [b]) + ['replay', sys.argv[3]], env=env).returncode
            if r != 2: return r
        return 2
    t0 = time.time(); rdir = V + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
    tot = dict(evaluations=0, discarded=0, distinct_nontrivial=0, samples=[], labels={}, per_prop={}, known_hits={}); viol = None
    for n, b in bins:
        rep = '%s/%s-%s.txt' % (rdir, pid, n); st = '%s/%s-%s.stats' % (rdir, pid, n)
        for f in (rep, st):
            if os.path.exists(f): os.unlink(f)
        scale = cfg.get('quick', 1.0) * (1.0 if tier == 'quick' else cfg.get('thorough', 12))
        cap = cfg.get('cap', 420) / len(bins) if tier == 'quick' else 3000
        scale *= float(os.environ.get('VERIF_SCALE', '1'))
        cmd = [b, 'run', str(seed), str(scale), str(cap), str(os.environ.get('VERIF_WORKERS', 8)), rep, st]
        if 'js' in cfg: cmd = ['node', b + '/main.mjs', 'run', n, str(seed), str(scale), rep, st]
        elif os.environ.get('VERIF_ONLY'): cmd.append(os.environ['VERIF_ONLY'])
        p = subprocess.run(cmd, env=env, cwd=V)
        s = json.load(open(st), strict=False); os.unlink(st)
        for k in ('evaluations', 'discarded', 'distinct_nontrivial'): tot[k] += s[k]
        for k in ('labels', 'per_prop', 'known_hits'): tot[k].update(s[k])
        tot['samples'] += s['samples']
        if s['time_capped']: tot['time_capped'] = True
        if s['failed'] and s['confirmed'] == 'yes': viol = (rep, s); break
        if s['failed'] or s['harness_error']:
            print('CHECK-ERROR property=%s %s: %s' % (pid, s['confirmed'], json.dumps({k: s[k] for k in ('prop', 'msg', 'herr', 'trace') if k in s})[:3000])); return 3
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=tot['distinct_nontrivial'], rule=cfg['rule'], samples=[x[:1500] for x in tot['samples'][:12]] or ['(none)'],
                            discarded=tot['discarded'], classes=tot['labels'], per_check={k: dict(cases=v[0], nontrivial=v[1]) for k, v in tot['per_prop'].items()}, known_finding_hits=tot['known_hits'], time_capped=tot.get('time_capped', False)),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for kid, text in known: print('KNOWN-FINDING: property=%s %s: %s (hit %d times in this run)' % (pid, kid, text, tot['known_hits'].get(kid, 0)))
    if viol:
        rep, s = viol
        print('%s: %s\n  case: %s' % (s['prop'], s['msg'], s['trace'][:2000]))
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    print('OK property=%s cases=%d nontrivial=%d %.1fs' % (pid, tot['evaluations'], tot['distinct_nontrivial'], time.time() - t0)); return 0
if __name__ == '__main__': sys.exit(main())
