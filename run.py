#!/usr/bin/env python3
"""Runner of the monitoring harness.

  run.py check Cxx [--tier quick|thorough] [--count N] [--seed S]
  run.py replay FILE
  run.py setup
Exit: 0 property held on everything explored, 1 violation, 2 no answer (build or harness error).
"""
import sys, os, json, time, subprocess, hashlib, fcntl, shutil, struct, signal, glob, re, argparse
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
HARNESS = os.path.join(HERE, 'harness')
NCPU = min(8, os.cpu_count() or 8)

class NoAnswer(Exception): pass

# ------------------------------------------------------------------ builds

SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS'
VARIANTS = {
    'san':   dict(cc='clang', cxx='clang++', flags='-O1 -g1 ' + SAN),
    # C31: library by different compilers and options, harness always by the same one (so that it generates the same cases)
    'o2':    dict(cc='gcc', cxx='g++', flags='-O2 -g1', hcxx='clang++', hflags='-O1'),
    'o3n':   dict(cc='gcc', cxx='g++', flags='-O3 -DNDEBUG', hcxx='clang++', hflags='-O1'),
    'o0':    dict(cc='clang', cxx='clang++', flags='-O0', hcxx='clang++', hflags='-O1'),
    'c3n':   dict(cc='clang', cxx='clang++', flags='-O3 -DNDEBUG', hcxx='clang++', hflags='-O1'),
    'vg':    dict(cc='gcc', cxx='g++', flags='-O1 -g', hcxx='clang++', hflags='-O1 -g1'),
    'dbg':   dict(cc='gcc', cxx='g++', flags='-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_DEBUG'),
    'tsan':  dict(cc='clang', cxx='clang++', flags='-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer', link='-pthread'),
    # library: counts executed control-flow edges; harness not instrumented
    'cov':   dict(cc='clang', cxx='clang++', flags='-O1 -g1', lib='-fsanitize-coverage=edge,trace-pc-guard', link='-pthread -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset -Wl,--wrap=calloc'),
    'fault': dict(cc='clang', cxx='clang++', flags='-O1 -g1 ' + SAN,
                  link='-Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free'),
}

def sh(cmd, log, cwd=None, timeout=800):
    with open(log, 'ab') as f:
        f.write(('+ ' + ' '.join(cmd) + '\n').encode()); f.flush()
        return subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout)

def tree_hash(extra, pats=None):
    h = hashlib.sha256()
    if pats is None: pats = ('.c', '.h', '.cpp', '.hpp', '.cc', '.hh', '.cxx', '.hxx', '.inc', '.ipp', '.cmake', 'CMakeLists.txt', '.in')
    def add(root, pats):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ('.git', 'build', 'tests', 'doc'))
            for f in sorted(fs):
                if f.endswith(pats):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b'\0')
                    with open(p, 'rb') as g: h.update(g.read())
                    h.update(b'\0')
    add(REPO, pats)
    h.update(extra.encode())
    return h.hexdigest()

def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f: h.update(f.read() + b'\0')
    return h.hexdigest()

def build(variant, tus):
    """Builds the library from REPO's working tree and links the worker from the given harness files."""
    V = VARIANTS[variant]
    bdir = os.path.join(BUILD, variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(bdir, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = os.path.join(bdir, 'log')
    open(log, 'w').close()
    libflags = V['flags'] + ' ' + V.get('lib', '')
    want = tree_hash(libflags)
    stamp = os.path.join(bdir, 'lib.stamp')
    cm = os.path.join(bdir, 'cmake')
    have = open(stamp).read() if os.path.exists(stamp) else ''
    if have != want:
        if os.path.exists(stamp): os.remove(stamp)
        shutil.rmtree(cm, ignore_errors=True)
        cmd = ['cmake', '-S', REPO, '-B', cm, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DBUILD_SHARED_LIBS=OFF',
               '-DCMAKE_C_COMPILER=' + V['cc'], '-DCMAKE_CXX_COMPILER=' + V['cxx'],
               '-DCMAKE_C_FLAGS=' + libflags, '-DCMAKE_CXX_FLAGS=' + libflags]
        if sh(cmd, log) != 0 or sh(['cmake', '--build', cm, '--target', 'OpmFDEngine', '-j', str(NCPU)], log) != 0:
            raise NoAnswer('the library does not build (%s):\n%s' % (variant, open(log).read()[-3000:]))
        with open(stamp, 'w') as f: f.write(want)
    libs = [p for p in glob.glob(os.path.join(cm, '**', 'libOpmFDEngine*.a'), recursive=True)]
    if len(libs) != 1: raise NoAnswer('library not found: %r' % libs)
    hdr = sorted(glob.glob(os.path.join(HARNESS, '*.hpp')))
    gen = sorted(glob.glob(os.path.join(cm, '*.h')))
    base = tree_hash(libflags, ('.h', '.hpp', '.hh', '.hxx', '.inc', '.ipp', '.cmake', 'CMakeLists.txt', '.in')) + V.get('hcxx', '') + V.get('hflags', '') + file_hash(hdr) + file_hash(gen)
    objs, todo = [], []
    for t in tus:
        src = os.path.join(HARNESS, t + '.cpp')
        key = hashlib.sha256((base + file_hash([src])).encode()).hexdigest()[:16]
        obj = os.path.join(bdir, '%s.%s.o' % (t, key)); objs.append(obj)
        if not os.path.exists(obj):
            for old in glob.glob(os.path.join(bdir, t + '.*.o')): os.remove(old)
            todo.append((src, obj))
    def comp(so):
        lg = so[1] + '.log'
        rc = sh([V.get('hcxx', V['cxx']), '-std=c++17'] + V.get('hflags', V['flags']).split() + ['-I', REPO, '-I', cm, '-c', so[0], '-o', so[1] + '.tmp'], lg)
        if rc == 0: os.rename(so[1] + '.tmp', so[1]); os.remove(lg)
        return rc, lg
    with ThreadPoolExecutor(NCPU) as ex:
        for rc, lg in ex.map(comp, todo):
            if rc != 0: raise NoAnswer('the harness does not build:\n' + open(lg).read()[-3000:])
    exe = os.path.join(bdir, 'worker.' + hashlib.sha256((want + ''.join(objs)).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(bdir, 'worker.*')):
            if time.time() - os.path.getmtime(old) > 7200: os.remove(old)
        if sh([V.get('hcxx', V['cxx'])] + V.get('hflags', V['flags']).split() + objs + libs + V.get('link', '').split() + ['-o', exe + '.tmp'], log) != 0:
            raise NoAnswer('the worker does not link:\n' + open(log).read()[-3000:])
        os.rename(exe + '.tmp', exe)
    lock.close()
    return exe

# ------------------------------------------------------------------ workers

def env_for(variant, extra=None):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=1:exitcode=97:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1:max_allocation_size_mb=6000:malloc_fill_byte=190:max_malloc_fill_size=1000000'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=97'
    e['LSAN_OPTIONS'] = 'exitcode=98'
    e['TSAN_OPTIONS'] = 'exitcode=97:halt_on_error=1:second_deadlock_stack=1'
    e['LC_ALL'] = 'C'
    if extra: e.update(extra)
    return e

class Worker:
    def __init__(s, exe, variant, work, tag, prop, seed, a, b, stride, tier, envx=None, prefix=None, digests=False, stall=60):
        s.base = os.path.join(work, tag)
        s.a, s.b, s.stride, s.tag, s.stall, s.prop = a, b, stride, tag, stall, prop
        for x in ('.prog', '.json', '.json.v', '.err', '.dig'):
            if os.path.exists(s.base + x): os.remove(s.base + x)
        cmd = (prefix or []) + [exe, '--prop', prop, '--seed', str(seed), '--from', str(a), '--to', str(b), '--stride', str(stride),
               '--tier', tier, '--progress', s.base + '.prog', '--out', s.base + '.json']
        if digests: cmd += ['--digests', s.base + '.dig']
        s.err = open(s.base + '.err', 'wb')
        s.p = subprocess.Popen(cmd, stdout=s.err, stderr=subprocess.STDOUT, env=env_for(variant, envx), start_new_session=True, cwd=work)
        s.last, s.when, s.cpu, s.hung = None, time.time(), 0.0, False
    def progress(s):
        try:
            with open(s.base + '.prog', 'rb') as f: return struct.unpack('qq', f.read(16))
        except Exception: return None
    def poll(s):
        rc = s.p.poll()
        if rc is not None: return rc
        pr = s.progress()
        if pr != s.last: s.last, s.when, s.cpu = pr, time.time(), s.cputime()
        elif time.time() - s.when > s.stall and (s.cputime() - s.cpu > s.stall * 0.8 or time.time() - s.when > 4 * s.stall):
            s.hung = True
            s.kill()
            return s.p.wait()
        return None
    def cputime(s):
        try:
            with open('/proc/%d/stat' % s.p.pid) as f: v = f.read().rsplit(')', 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
        except Exception: return 0.0
    def kill(s):
        try: os.killpg(s.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    def wait(s):
        while True:
            rc = s.poll()
            if rc is not None: return rc
            time.sleep(0.02)
    def log(s):
        s.err.close()
        with open(s.base + '.err', 'rb') as f: return f.read().decode('utf-8', 'replace')
    def early(s):
        """Violations of finished cases."""
        try:
            with open(s.base + '.json.v') as f: return [json.loads(l) for l in f if l.endswith('}\n')]
        except Exception: return []
    def out(s):
        try:
            with open(s.base + '.json') as f: return json.load(f)
        except Exception: return None

def merge(tot, o):
    tot['done'] += o['done']
    for k, v in o['stats'].items():
        if k.startswith('max:'): tot['stats'][k] = max(tot['stats'].get(k, 0), v)
        else: tot['stats'][k] = tot['stats'].get(k, 0) + v
    tot['samples'] += o['samples']
    tot['hashes'].update(o['hashes'])

def summary(log):
    for pat in (r'SUMMARY: .*', r'.*runtime error: .*', r'.*Assertion .*', r'.*terminate called.*', r'==\d+== (Invalid|Conditional|Use of|Syscall).*'):
        m = re.search(pat, log)
        if m: return m.group(0)[:400]
    lines = [l for l in log.splitlines() if l.strip()]
    return (lines[-1][:400] if lines else 'no output')

def run_stream(exe, variant, prop, seed, n, tier, work, tot, start=0, nworkers=None, prefix=None, envx=None, digests=False, stall=60):
    """Runs cases start..n-1 of a stream over parallel workers. Returns a list of violations (dicts)."""
    W = nworkers or NCPU
    ws = [Worker(exe, variant, work, '%s.%s.%d' % (prop, variant, k), prop, seed, start + k, n, W, tier, envx, prefix, digests, stall) for k in range(W) if start + k < n]
    viol, since = [], None
    pending = list(ws)
    found = lambda: [dict(stream=prop, variant=variant, seed=seed, tier=tier, log='', **v) for w in ws for v in w.early()]
    try:
        while pending:
            for w in list(pending):
                rc = w.poll()
                if rc is None: continue
                pending.remove(w)
                if w.hung and (viol or found()): continue            # settled: no need to confirm that it hangs
                viol += judge(exe, variant, prop, seed, tier, work, w, rc, tot, envx, prefix)
            if since is None and new_ones(prop, viol or found()): since = time.time()
            if since is not None and time.time() - since > 20:       # settled: the others need not finish
                tot['stats']['stopped_early'] = 1
                break
            if pending: time.sleep(0.05)
        viol += [v for v in found() if all((v['idx'], v['key']) != (q['idx'], q['key']) for q in viol)]
    finally:
        for w in ws:
            if w.p.poll() is None: w.kill()
    return viol

def judge(exe, variant, prop, seed, tier, work, w, rc, tot, envx, prefix):
    o = w.out() if rc in (0, 10, 97, 98) else None
    mk = lambda idx, key, msg, log='', **kw: dict(stream=prop, variant=variant, seed=seed, tier=tier, idx=idx, key=key, msg=msg, log=log[-6000:], **kw)
    if rc in (0, 10) and o is not None and not w.hung:
        w.log()
        merge(tot, o)
        return [mk(v['idx'], v['key'], v['msg']) for v in o['violations']]
    log = w.log()
    if rc == 3: raise NoAnswer('worker: ' + log[-1000:])
    if 'LeakSanitizer has encountered a fatal error' in log:
        # no permission to trace: run again without leak detection (C26/C27 keep their own ledger)
        e = dict(envx or {}); e['ASAN_OPTIONS'] = env_for(variant)['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
        tot['stats']['leak_check_unavailable'] = 1
        w2 = Worker(exe, variant, work, w.tag + '.nl', prop, seed, w.a, w.b, w.stride, tier, e, prefix, False, w.stall)
        return judge(exe, variant, prop, seed, tier, work, w2, w2.wait(), tot, e, prefix)
    pr = w.progress()
    idx = pr[0] if pr else -1
    if o is not None and idx == -1:
        # all cases done, trouble at exit: leaks.  Find one case that shows it alone.
        merge(tot, o)
        vs = [mk(v['idx'], v['key'], v['msg']) for v in o['violations']]
        lo, hi = w.a, w.b
        def bad(a, b):
            v = Worker(exe, variant, work, w.tag + '.bis', prop, seed, a, b, w.stride, tier, envx, prefix, False, w.stall)
            r = v.wait(); l = v.log(); return (r in (97, 98) and 'LeakSanitizer: detected' in l), l
        if 'LeakSanitizer: detected' in log:
            while hi - lo > w.stride:
                k = ((hi - lo + w.stride - 1) // w.stride) // 2
                mid = lo + k * w.stride
                b1, l1 = bad(lo, mid)
                if b1: hi, log = mid, l1; continue
                b2, l2 = bad(mid, hi)
                if b2: lo, log = mid, l2; continue
                break
        if hi - lo <= w.stride: return vs + [mk(lo, 'leak', summary(log), log)]
        return vs + [mk(lo, 'exit', summary(log), log, to=hi, stride=w.stride)]
    if rc == -signal.SIGKILL and not w.hung: raise NoAnswer('a worker was killed (out of memory?) in case %d of %s' % (idx, prop))
    if idx < 0: raise NoAnswer('worker failed (rc %d) outside any case:\n%s' % (rc, log[-2000:]))
    # crash or hang in case idx: confirm it alone
    w2 = Worker(exe, variant, work, w.tag + '.re', prop, seed, idx, idx + 1, 1, tier, envx, prefix, False, 120 if w.hung else w.stall)
    rc2 = w2.wait(); log2 = w2.log()
    if w.hung and not w2.hung and rc2 in (0, 10):
        # only slow: carry on behind it
        o2 = w2.out(); merge(tot, o2)
        tot['stats']['slow_cases'] = tot['stats'].get('slow_cases', 0) + 1
        vs = [mk(v['idx'], v['key'], v['msg']) for v in o2['violations']]
        w3 = Worker(exe, variant, work, w.tag + '+', prop, seed, idx + w.stride, w.b, w.stride, tier, envx, prefix, False, w.stall)
        return vs + judge(exe, variant, prop, seed, tier, work, w3, w3.wait(), tot, envx, prefix)
    if w2.hung: return [mk(idx, 'hang', 'the case does not terminate (no progress for 120 s alone)', log2)]
    if rc2 not in (0, 10):
        if rc2 == -signal.SIGKILL: raise NoAnswer('a worker was killed in case %d of %s' % (idx, prop))
        return [mk(idx, 'crash', 'exit status %d: %s' % (rc2, summary(log2)), log2)]
    o2 = w2.out()
    if o2 and o2['violations']: return [mk(v['idx'], v['key'], v['msg']) for v in o2['violations']]
    # needs the cases before it
    return [mk(w.a, 'crash', 'exit status %d in case %d (with the preceding cases of its worker): %s' % (rc, idx, summary(log)), log, to=idx + 1, stride=w.stride)]

# ------------------------------------------------------------------ checks

def known(prop):
    """Known, unrepaired findings:  finding: property=<id> key=<key> match=<regex on the message> what=<text>"""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+) match=(\S+) what=(.*)', l)
        if m and m.group(1) == prop: r.append(m.groups())
    return r

def new_ones(prop, viol):
    kn = known(prop)
    return [v for v in viol if not any(re.fullmatch(k[1], v['key']) and re.search(k[2], v['msg']) for k in kn)]

def write_replay(prop, v):
    d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w') as f: json.dump(dict(v, property=prop), f, indent=1)
    return p

def check(prop, tier, seed, count=None):
    import checks
    C = checks.CHECKS[prop]
    t0 = time.time()
    work = os.path.join(BUILD, 'work', '%s.%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    tot = dict(done=0, stats={}, samples=[], hashes=set())
    try:
        extra, viol = {}, []
        if 'custom' in C:
            viol, extra = C['custom'](sys.modules[__name__], prop, tier, seed, work, tot, count)
        else:
            exe = build(C['variant'], ['main'] + C['tus'])
            n = count or C[tier]
            viol = run_stream(exe, C['variant'], prop, seed, n, tier, work, tot, stall=C.get('stall', 60), nworkers=C.get('workers'), envx=C.get('env'))
    except NoAnswer as e:
        print('NO ANSWER property=%s: %s' % (prop, e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rep, kn = [], {}
    for v in viol:
        for k in known(prop):
            if re.fullmatch(k[1], v['key']) and re.search(k[2], v['msg']): kn[k[3]] = 1; break
        else: rep.append(v)
    min_nt = C.get('min_nontrivial', 10)
    cov = dict(evaluations=tot['done'], distinct_nontrivial=len(tot['hashes']), rule=C['rule'], samples=tot['samples'][:4],
               observed=dict(sorted(tot['stats'].items())))
    cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=C['level'], coverage=cov, assumptions=C.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(rep))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if rep:
        seen = set()
        for v in rep:
            if v['key'] in seen: continue
            seen.add(v['key'])
            print('  case %s/%d [%s] %s' % (v['stream'], v['idx'], v['key'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, write_replay(prop, v)))
        return 1
    if count is None and len(tot['hashes']) < min_nt and tot['done'] > 0 or tot['done'] == 0:
        print('NO ANSWER property=%s: only %d non-trivial cases' % (prop, len(tot['hashes']))); return 2
    print('OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (prop, tier, tot['done'], len(tot['hashes']), time.time() - t0))
    return 0

def replay(path):
    import checks
    v = json.load(open(path)); prop = v['property']; C = checks.CHECKS[prop]
    if 'replay' in C: return C['replay'](sys.modules[__name__], v)
    tus = checks.CHECKS[v['stream']]['tus'] if v['stream'] in checks.CHECKS else C['tus']
    exe = build(v['variant'], ['main'] + tus)
    work = os.path.join(BUILD, 'work', 'replay.%d' % os.getpid()); os.makedirs(work, exist_ok=True)
    w = Worker(exe, v['variant'], work, 'r', v['stream'], v['seed'], v['idx'], v.get('to', v['idx'] + 1), v.get('stride', 1), v['tier'])
    rc = w.wait(); log = w.log(); shutil.rmtree(work, ignore_errors=True)
    print(log[-8000:])
    if rc == 0: print('the case passes'); return 0
    print('VIOLATION property=%s replay=%s' % (prop, path)); return 1

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('cmd'); ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--count', type=int)
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.cmd == 'check': return check(a.arg, a.tier, a.seed, a.count)
        if a.cmd == 'replay': return replay(a.arg)
        if a.cmd == 'setup':
            build('san', ['main', 'h_graph']); print('setup done'); return 0
    except NoAnswer as e:
        print('NO ANSWER: %s' % e); return 2
    ap.error('unknown command')

if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    sys.exit(main())
