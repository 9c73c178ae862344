"""Builds the code under test (from /repo's working tree) with sanitizers, plus shims and harness binaries.
Content-hash keyed object cache in /verif/build (git-ignored): no dependence on mtimes."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,pointer-overflow,function,nonnull-attribute,shift-base', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
DEFS = ['BLOCK_HASH_CACHE', 'BLS_DESERIALIZE', 'C4_VERSION="0.1.0-dev"', 'CHAIN_ETH', 'ETH_ACCOUNT', 'ETH_BLOCK', 'ETH_CALL',
        'ETH_LOGS', 'ETH_RECEIPT', 'ETH_TX', 'ETH_UTIL', 'ETH_ZKPROOF', 'FILE_STORAGE', 'MESSAGES', 'PROVER', 'PROVER_CACHE', 'TEST',
        'USE_CHECKPOINTZ', 'WITNESS_SIGNER', 'PRECOMPILE_ZERO_HASHES', 'EVM', 'EVMONE', 'INTX', 'PRECOMPILED_RIPEMD160',
        'PRECOMPILED_BN128', 'PRECOMPILED_KZG', 'ETH_PRECOMPILE_EMBED', 'CHAIN_OP', 'AES_128', 'USE_PRECOMPUTED_CP=1', 'USE_ECDSA_SIGN', 'USE_RFC6979',
        'TESTDATA_DIR="%s/test/data"' % R,
        'VERIFIERS_PATH="verifiers.h"', 'PROVERS_PATH="provers.h"', 'CHAIN_PROPS_PATH="chain_props.h"']
INC = [V + '/shim', V + '/shim/gen', B + '/gen'] + [R + '/' + p for p in (
    'src', 'src/util', 'src/verifier', 'src/prover', 'src/chains/eth/verifier', 'src/chains/eth/ssz', 'src/chains/eth/prover',
    'src/chains/eth/zk_verifier', 'src/chains/eth/bn254', 'src/chains/eth/precompiles', 'src/chains/op/verifier', 'src/chains/op/ssz',
    'src/chains/op/prover', 'bindings', 'libs/crypto', 'libs/intx', 'libs/evmone', 'libs/curl')]
def sources():
    g = lambda p: sorted(glob.glob(R + '/' + p))
    s = g('src/util/*.c') + g('src/verifier/*.c') + g('src/prover/*.c') + g('src/chains/eth/verifier/*.c') + g('src/chains/eth/ssz/*.c') \
        + g('src/chains/eth/prover/*.c') + [f for f in g('src/chains/eth/zk_verifier/*.c') if not f.endswith('/main.c')] \
        + [R + '/src/chains/eth/bn254/bn254.c', R + '/src/chains/eth/precompiles/precompiles_basic.c'] \
        + g('src/chains/op/verifier/*.c') + g('src/chains/op/ssz/*.c') + g('src/chains/op/prover/*.c') + [R + '/libs/intx/wrapper.cpp', R + '/bindings/colibri.c']
    s += [R + '/libs/crypto/' + f for f in ('bignum.c', 'curves.c', 'ecdsa.c', 'hmac_drbg.c', 'memzero.c', 'rand.c', 'rfc6979.c', 'ripemd160.c', 'secp256k1.c', 'sha2.c', 'sha3.c')]
    return s
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode()); m.update(b'\0')
    return m.hexdigest()[:24]
def rd(f):
    with open(f, 'rb') as x: return x.read()
def headers_hash(roots):
    m = hashlib.sha256()
    for r in roots:
        for d, _, fs in sorted(os.walk(r)):
            if '/.git' in d or '/_build' in d or '/node_modules' in d: continue
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp', '.inc', '.table')): p = os.path.join(d, f); m.update(p.encode()); m.update(rd(p))
    return m.hexdigest()
def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: sys.stderr.write('BUILD FAILED: %s\n%s\n%s\n' % (what, ' '.join(cmd), p.stdout.decode(errors='replace')[-6000:])); raise SystemExit(3)
def compile_one(src, flags, key):
    o = os.path.join(B, 'obj', os.path.basename(src) + '.' + key + '.o')
    if not os.path.exists(o):
        cc = 'clang++' if src.endswith('.cpp') else 'clang'
        run([cc] + flags + ['-c', src, '-o', o + '.tmp%d' % os.getpid()], src); os.replace(o + '.tmp%d' % os.getpid(), o)
    return o
def gen():
    os.makedirs(B + '/gen', exist_ok=True); os.makedirs(B + '/obj', exist_ok=True); os.makedirs(B + '/bin', exist_ok=True)
    L = open(R + '/src/chains/eth/precompiles/trusted_setup.txt').read().split('\n')
    hx = L[2 + int(L[0]) + 1].strip()
    t = 'static const unsigned char KZG_G2_TAU_COMPRESSED[96] = {%s};\n' % ','.join('0x' + hx[i:i + 2] for i in range(0, len(hx), 2))
    f = B + '/gen/trusted_setup_embed.h'
    if not os.path.exists(f) or open(f).read() != '#include <stdint.h>\n' + t: open(f, 'w').write('#include <stdint.h>\n' + t)
def build(harness, extra=(), sanitize=True, defs_off=(), defs_on=(), tag=''):
    """returns path of the harness binary"""
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen()
        san = SAN if sanitize else []
        defs = ['-D' + d for d in DEFS if d not in defs_off] + ['-D' + d for d in defs_on]
        inc = ['-I' + i for i in INC]
        hh = headers_hash([R + '/src', R + '/libs', V + '/shim', B + '/gen'])
        # precompiles_basic.c includes sibling .c files
        pc = h(*[rd(f) for f in sorted(glob.glob(R + '/src/chains/eth/precompiles/*.c'))])
        cf = san + ['-g1', '-O1', '-w', '-fPIC'] + defs + inc
        jobs = []
        for s in sources():
            fl = cf + (['-std=c++17'] if s.endswith('.cpp') else ['-std=gnu11'])
            jobs.append((s, fl, h(rd(s), hh, pc if 'precompiles' in s else '', ' '.join(fl))))
        for s in sorted(glob.glob(V + '/shim/*.cpp')):
            fl = ['-g1', '-O2', '-w', '-std=c++17'] + ['-I' + i for i in INC]
            jobs.append((s, fl, h(rd(s), hh, ' '.join(fl))))
        lh = headers_hash([V + '/lib', V + '/harness'])
        hs = sorted(glob.glob(V + '/lib/*.cpp')) + [V + '/harness/' + harness + '.cpp'] + [V + '/harness/' + e for e in extra]
        for s in hs:
            fl = (['-fsanitize=address', '-fno-omit-frame-pointer'] if san else []) + ['-g1', '-O1', '-w', '-std=c++17', '-I' + V + '/lib'] + defs + inc
            jobs.append((s, fl, h(rd(s), hh, lh, ' '.join(fl))))
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: compile_one(*j), jobs))
        ld = [x for l in rd(V + '/harness/' + harness + '.cpp').decode().split('\n')[:10] if l.startswith('// LDFLAGS:') for x in l[11:].split()]
        key = h(*[os.path.basename(o) for o in objs], *ld)
        out = B + '/bin/' + harness + tag + '.' + key
        if not os.path.exists(out):
            run(['clang++'] + san + objs + ld + ['-lgmp', '-lcrypto', '-lzstd', '-lpthread', '-lm', '-o', out + '.tmp'], 'link ' + harness); os.replace(out + '.tmp', out)
            for f in glob.glob(B + '/bin/' + harness + tag + '.*'):
                if f != out: os.unlink(f)
            live = None
    return out
def prune(max_bytes=3 << 30):
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(B + '/obj/*.o')]
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot <= max_bytes: break
        os.unlink(f); tot -= s
if __name__ == '__main__':
    names = sys.argv[1:] or [os.path.basename(f)[:-4] for f in sorted(glob.glob(V + '/harness/c*.cpp'))]
    for n in names: print(build(n))
