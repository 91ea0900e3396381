#!/usr/bin/env python3
"""run.py MUTDIR BASE HARNESS OUT NWORKERS [LIMIT]: tries the variants made by
mutate (in a random but fixed order): compile, run the repository's tests, and
run the checks against those that pass them. One JSON line per variant in OUT.
Development aid; everything is written under /tmp/mut."""
import json, os, random, subprocess, sys, glob, shutil, threading, queue, time
muts, base, harness, out, nw = sys.argv[1:6]
nw = int(nw); limit = int(sys.argv[6]) if len(sys.argv) > 6 else 10**9
SCALE = os.environ.get('MUT_SCALE', '0.1')
ALL = ['C%02d' % i for i in range(1, 32)]
PREF = {
 'block_real_matrix.go': 'C01 C02 C03 C05 C04 C25 C06 C07 C27', 'array_2d_row_real_matrix.go': 'C01 C02 C03 C05 C04 C25 C06 C07 C27',
 'eigen_decomposition.go': 'C17 C18 C24 C28 C21 C23 C29', 'singular_value_decomposition.go': 'C15 C16 C22 C24 C29', 'schur_transformer.go': 'C20 C18 C29',
 'diagonal_matrix.go': 'C26 C05 C07 C25 C27 C06 C23', 'bidiagonal_transformer.go': 'C19', 'qr_decomposition.go': 'C12 C22 C21 C13 C29', 'rrqr_decomposition.go': 'C13 C22',
 'array_real_vector.go': 'C08 C09 C06 C05 C07 C27 C03', 'real_vector.go': 'C08 C09 C05 C07', 'tridiagonal_transformer.go': 'C19 C17', 'lu_decomposition.go': 'C10 C28 C21 C24 C23 C29',
 'hessenberg_transformer.go': 'C19 C20', 'real_matrix.go': 'C03 C25 C07 C27 C02', 'cholesky_decomposition.go': 'C11 C28 C21 C24 C29', 'rectangular_cholesky_decomposition.go': 'C14 C29',
 'utils.go': 'C25 C01 C08 C26 C14 C18 C17 C20', 'error.go': 'C07',
}
ids = sorted(os.path.basename(p)[:-5] for p in glob.glob(muts + '/*.json'))
random.Random(int(os.environ.get('MUT_SEED', '7'))).shuffle(ids)
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)['id'])
q = queue.Queue()
for i in [i for i in ids if i not in done][:limit]:
    q.put(i)
lock = threading.Lock(); fo = open(out, 'a')
first = int(os.environ.get('MUT_CPU0', '0'))

def sh(cmd, env, cpu, timeout, cwd):
    p = subprocess.Popen(['taskset', '-c', str(cpu), 'prlimit', '--as=12884901888'] + cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        return -99, 'timeout'

def worker(k):
    w = '/tmp/mut/w%d' % k
    cache = w + '/cache'
    n = 0
    while True:
        try: i = q.get_nowait()
        except queue.Empty: return
        if n % 150 == 0:
            shutil.rmtree(w, ignore_errors=True); os.makedirs(w + '/tmp'); os.path.isdir('/tmp/mut/seedcache') and shutil.copytree('/tmp/mut/seedcache', cache); os.makedirs(w + '/root', exist_ok=True)
            shutil.copy('/verif/known_findings.json', w + '/root/')
        n += 1
        m = json.load(open('%s/%s.json' % (muts, i)))
        if m['op'] == 'float' and m['old'] in ('0.', '0.0') and '+' not in m['new'] or m['op'] == 'if-false' and m['old'] in ('ok', 'err != nil'):
            continue
        env = dict(os.environ, GOCACHE=cache, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local', CGO_ENABLED='0', TMPDIR=w + '/tmp', GOTMPDIR=w + '/tmp', VERIF_ROOT=w + '/root', VERIF_SCALE=SCALE, HOME='/root', GOMAXPROCS='2')
        m = json.load(open('%s/%s.json' % (muts, i)))
        ov = w + '/ov.json'
        json.dump({'Replace': {base + '/' + m['file']: '%s/%s.go' % (muts, i)}}, open(ov, 'w'))
        res = {'id': i, **m}
        t0 = time.time()
        rc, o = sh(['go', 'test', '-vet=off', '-c', '-overlay', ov, '-o', w + '/t.bin', '.'], env, first + k, 120, base)
        if rc != 0:
            res['status'] = 'nocompile'
        else:
            rc, o = sh([w + '/t.bin', '-test.failfast'], env, first + k, 12, base)
            if rc != 0:
                res['status'] = 'tests'
            else:
                rc, o = sh(['go', 'build', '-overlay', ov, '-o', w + '/h', '.'], env, first + k, 200, harness)
                if rc != 0:
                    res['status'] = 'harness-nocompile'
                else:
                    pref = PREF.get(m['file'], '').split()
                    res['status'] = 'survived'
                    for p in pref + [x for x in os.environ.get('MUT_MORE', 'C07 C24').split() if x not in pref]:
                        rc, o = sh([w + '/h', 'check', p, 'quick'], env, first + k, 300, w)
                        if rc != 0:
                            res['status'] = 'caught' if rc == 1 else 'broken'
                            res['by'] = p; res['rc'] = rc
                            break
        res['t'] = round(time.time() - t0, 1)
        with lock:
            fo.write(json.dumps(res) + '\n'); fo.flush()

ts = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
for t in ts: t.start()
for t in ts: t.join()
