"""Builds the replay harness from the repository's current sources and runs cases against the oracle, in parallel."""
import os, sys, subprocess, time, random, multiprocessing as mp, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import oracle, gen
REPO = os.environ.get('VERIF_REPO', '/repo')
DEPS = '/opt/vp/deps'
FLAGS = ['-std=c++17', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-include', DEPS + '/compat/compat.hpp', '-DXXH_INLINE_ALL', '-w',
         '-I' + os.path.join(HERE, '..', 'vcg', 'include')] + ['-I%s/bnl/%s/include' % (REPO, m) for m in ('base', 'http3', 'log')] + ['-I%s/outcome' % DEPS, '-I%s/xxhash' % DEPS]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:symbolize=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
def sources():
    sys.path.insert(0, os.path.join(HERE, '..'))
    from vcg.build import sources as src
    return [s for s in src() if not s.endswith('system_error.cpp')]
def build(out, jobs=8, harness='harness.cpp', quic=False):
    """(path of the harness, error text)"""
    from concurrent.futures import ThreadPoolExecutor
    os.makedirs(out, exist_ok=True)
    srcs = sources() + [os.path.join(HERE, harness)]; extra = []
    if quic: srcs.append(REPO + '/bnl/quic/src/crypto.cpp'); extra = ['-DVP_QUIC', '-fno-access-control', '-I%s/bnl/quic/include' % REPO]
    flags = list(FLAGS)
    # the library headers every source includes, compiled once
    pre = os.path.join(out, 'pre.hpp')
    with open(pre, 'w') as f: f.write('#include "%s/compat/compat.hpp"\n' % DEPS + ''.join('#include <%s>\n' % x for x in 'algorithm array cassert cstdint cstring iosfwd list map memory mutex ostream string system_error tuple utility fmt/core.h fmt/ostream.h outcome-basic.hpp'.split()))
    i = flags.index('-include'); pch = flags[:i] + flags[i + 2:] + ['-x', 'c++-header', pre, '-o', pre + '.gch']
    if subprocess.run(['g++'] + pch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: flags[i + 1] = pre
    def one(s):
        o = os.path.join(out, s.replace('/', '_') + '.o')
        p = subprocess.run(['g++'] + flags + extra + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, p.returncode, p.stdout
    srcs.sort(key=lambda s: not s.endswith(harness))
    with ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, srcs))
    bad = [(o, t) for o, rc, t in rs if rc]
    if bad: return None, '\n'.join(t[:1500] for o, t in bad)
    exe = os.path.join(out, 'harness')
    p = subprocess.run(['g++', '-fsanitize=address,undefined'] + [o for o, _, _ in rs] + ['-lfmt', '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (exe, None) if p.returncode == 0 else (None, p.stdout[:3000])
def run_batch(exe, lines, timeout=60):
    """list of (output tokens or None, note) per case; a crashing or hanging case is isolated and the rest continues"""
    res = []; i = 0
    while i < len(lines):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
        hang = False
        try: so, se = p.communicate(('\n'.join(lines[i:]) + '\n').encode(), timeout=timeout)
        except subprocess.TimeoutExpired: p.kill(); so, se = p.communicate(); hang = True
        got = so.decode('latin1').split('\n')[:-1]
        got = got[:len(lines) - i]
        res += [(g.split(), '') for g in got]
        i += len(got)
        if i < len(lines):
            note = 'no answer within %d s' % timeout if hang else 'the process died (exit status %s): %s' % (p.returncode, se.decode('latin1')[-1500:])
            if hang and got: timeout = max(5, timeout // 2)
            res.append((None, note)); i += 1
    return res
def judge(lines, res):
    bad = []
    for l, (g, note) in zip(lines, res):
        w = oracle.expect(l)
        if g != w: bad.append(dict(case=l, expected=' '.join(w), observed=' '.join(g) if g is not None else '', note=note))
    return bad
def worker(exe, prop, seed, k, deadline, maxbad, q):
    try:
        r = random.Random('%s/%s/%s' % (seed, prop, k)); g = gen.GENS[prop](r); n = 0; bad = []; seen = set(); sample = []
        skip = k * 900
        if k: # the systematic prefix is covered by worker 0
            for _ in range(1): pass
        while time.time() < deadline and len(bad) < maxbad:
            L = [next(g) for _ in range(150 if n == 0 else 600)]
            if not sample: sample = L[:2] + L[-2:]
            bad += judge(L, run_batch(exe, L, 20)); n += len(L)
            for l in L: seen.add(hashlib.blake2b(l.encode(), digest_size=8).digest())
        q.put((n, seen, bad, sample))
    except Exception as e:
        import traceback; q.put((0, set(), [], ['internal: ' + traceback.format_exc()]))
def search(exe, prop, seed, seconds, procs=8, maxbad=3):
    """bounded cross-check: runs cases for the given time; returns counts and failing cases"""
    q = mp.Queue(); dl = time.time() + seconds
    ps = [mp.Process(target=worker, args=(exe, prop, seed, k, dl, maxbad, q)) for k in range(procs)]
    for p in ps: p.start()
    n = 0; seen = set(); bad = []; sample = []
    for _ in ps:
        a, b, c, d = q.get(); n += a; seen |= b; bad += c
        sample += d[:2]
    for p in ps: p.join()
    bad.sort(key=lambda b: len(b['case']))
    return dict(evaluations=n, distinct=len(seen), bad=bad, samples=[s[:300] for s in sample[:6]])
def shrink(exe, b, seconds=20):
    """drops words of a failing program case while it keeps failing"""
    t = time.time() + seconds; ws = b['case'].split(' ')
    if ws[0] not in ('B', 'Q', 'S', 'R', 'K', 'C', 'H', 'be', 'hE', 'qe', 'bd', 'hD', 'qd', 'BL'): return b
    keep = {'R': 3, 'K': 2, 'C': 2, 'S': 2, 'bd': 2, 'hD': 2, 'qd': 2, 'BL': 3}.get(ws[0], 1)
    i = len(ws) - 1
    while i >= keep and time.time() < t:
        c = ws[:i] + ws[i + 1:]; l = ' '.join(c)
        try: bad = judge([l], run_batch(exe, [l], 10))
        except Exception: bad = []
        if bad and len(c) > keep and bool(bad[0]['note']) == bool(b['note']): ws = c; b = bad[0]
        i -= 1
    return b
