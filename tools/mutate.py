#!/usr/bin/env python3
"""Development tool: mutation campaign.  For each mutant of the library sources that compiles and passes the repository's tests,
runs the functional streams (small counts) and records which report it.   mutate.py OUT.jsonl [--jobs N] [--only FILE] [--count N]
Scratch: /tmp/mut.<k> (copies of /repo, builds)."""
import os, re, sys, json, subprocess, shutil, hashlib, argparse, random
from concurrent.futures import ThreadPoolExecutor
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
FILES = ['opm/flowdiagnostics/' + f for f in ('CellSet.cpp', 'ConnectionValues.cpp', 'ConnectivityGraph.cpp', 'DerivedQuantities.cpp', 'Solution.cpp', 'Toolbox.cpp', 'TracerTofSolver.cpp', 'TracerTofSolver.hpp')] + \
        ['opm/utility/graph/' + f for f in ('tarjan.c', 'AssembledConnections.cpp', 'AssembledConnectionsIteration.hpp')] + ['opm/utility/numeric/RandomVector.cpp']
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!\-])<(?![<=])(?=\s)', '<='), (r'(?<=\s)(?<![<>=!\-])>(?![>=])(?=\s)', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=[\w\)\]] )\+(?= [\w\(])', '-'), (r'(?<=[\w\)\]] )-(?= [\w\(])', '+'), (r'(?<=[\w\)\]])\*(?=[\w\(])', '/'), (r'(?<=[\w\)\]] )\*(?= [\w\(])', '/'), (r'(?<=[\w\)\]] )/(?= [\w\(])', '*'), (r'\+=', '='), (r'\+=', '-='), (r'/=', '*='),
       (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r'\b0\.0\b', '1.0'), (r'\b0\.0\b', '1.0e-9'), (r'\b1\.0\b', '0.0'), (r'\b2\.0\b', '1.0'), (r'\b0\.5\b', '0.25'),
       (r'std::max\b', 'std::min'), (r'std::min\b', 'std::max'), (r'\bMIN\(', 'MAX_('), (r'\+\+', '--'), (r'--', '++'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\.begin\(\)', '.begin() + 1'), (r'\.clear\(\);', ';'), (r'\binflow', 'outflow'), (r'inj_', 'prod_'), (r'upstream', 'downstream'), (r'downstream', 'upstream'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'max_i_', 'max_j_'), (r'numRows_', 'numCols_'), (r'numCols_', 'numRows_'),
       (r'time\b', 'link'), (r'link\b', 'time'), (r'tof', 'tracer'), (r'tracer', 'tof'), (r'influx', 'outflux'), (r'1e100', '1e3'), (r'200\.0', '100.0'), (r'1e12', '1e10'), (r'1e-9', '1e-6'), (r'\(\)', '()'), (r'DONE', 'REMAINING'), (r'REMAINING', 'DONE')]
def mutants():
    for fn in FILES:
        src = open('/repo/' + fn).read().split('\n'); comment = False
        for k, l in enumerate(src):
            t = l.strip()
            if comment:
                if '*/' in t: comment = False
                continue
            if t.startswith('/*'):
                if '*/' not in t: comment = True
                continue
            if not t or t.startswith(('//', '#', '*', 'using', 'typedef')) or t.startswith('assert'): continue
            code = l.split('//')[0]
            seen = set()
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    n = code[:m.start()] + rep + code[m.end():]
                    if n != code and n not in seen: seen.add(n); yield fn, k, l, n
            if t.endswith(';') and not re.match(r'(return|throw|break|continue|\}|struct|const |auto |double |int |size_t )', t) and l.startswith(' '): yield fn, k, l, ';'
            m = re.match(r'(\s*(?:\} else )?(?:if|while) \()(.*)(\) \{\s*)$', code)
            if m: yield fn, k, l, m.group(1) + 'false && (' + m.group(2) + ')' + m.group(3)
            if m and 'while' not in m.group(1): yield fn, k, l, m.group(1) + 'true || (' + m.group(2) + ')' + m.group(3)
            m = re.match(r'(\s*)(\+\+\w+;|continue;|break;)\s*$', code)
def sh(cmd, timeout=600, **k):
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **k)
    try: o, _ = p.communicate(timeout=timeout); return subprocess.CompletedProcess(cmd, p.returncode, o, b'')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, _ = p.communicate(); return subprocess.CompletedProcess(cmd, 124, o or b'', b'')
ap = argparse.ArgumentParser(); ap.add_argument('out'); ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--only'); ap.add_argument('--count', type=int, default=1500); ap.add_argument('--frac', type=float, default=1.0); ap.add_argument('--checks', default='')
A = ap.parse_args()
STREAMS = ['C%02d' % k for k in range(1, 27)]
def one(w, q):
    fn, k, old, new = q
    root = '/tmp/mut.%d' % w; repo = root + '/repo'
    if not os.path.exists(root):
        os.makedirs(root); sh(['git', 'clone', '-q', '/repo', repo]); 
    sh('git checkout -q -- .', cwd=repo)
    p = repo + '/' + fn; s = open(p).read().split('\n'); assert s[k] == old; s[k] = new
    if 'MAX_(' in new: s.insert(0, '#define MAX_(a,b) (((a) > (b)) ? (a) : (b))')
    open(p, 'w').write('\n'.join(s))
    res = dict(file=fn, line=k + 1, old=old.strip(), new=new.strip())
    if not os.path.exists(repo + '/_b'):
        sh('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2" -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2"', cwd=repo)
    if sh('ninja -j2 -C _b', cwd=repo).returncode: res['r'] = 'no build'; return res
    T = sh('timeout 100 python3 /opt/vp/run_boost_cases.py _b', cwd=repo).stdout.decode()
    if 'FAIL' in T or T.count('PASS') < 41: res['r'] = 'tests'; return res
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=root + '/build')
    if A.checks:
        hit = []
        for c in A.checks.split(','):
            r = sh(['python3', H + '/run.py', 'check', c, '--tier', 'quick', '--seed', '1'], env=env, timeout=1500)
            if r.returncode: hit.append(c + ('' if r.returncode == 1 else '?%d' % r.returncode))
        res['r'] = 'caught' if hit else 'SURVIVED'; res['by'] = hit; return res
    r = sh(['python3', H + '/tools/allstreams.py', str(A.count), '2'], env=env, timeout=1500)
    o = r.stdout.decode().strip().splitlines(); last = o[-1] if o else ''
    if last.startswith('HITS'): res['by'] = last.split()[1:]; res['r'] = 'caught' if res['by'] else 'SURVIVED'
    else: res['r'] = 'error ' + '\n'.join(o)[-300:]
    return res
def main():
    M = list(mutants()); random.Random(5).shuffle(M)
    if A.only: M = [m for m in M if A.only in m[0]]
    M = M[:int(len(M) * A.frac)]
    done = set()
    if os.path.exists(A.out):
        for l in open(A.out): d = json.loads(l); done.add((d['file'], d['line'], d['new']))
    M = [m for m in M if (m[0], m[1] + 1, m[3].strip()) not in done]
    print(len(M), 'mutants', flush=True)
    import queue, threading
    Q = queue.Queue(); [Q.put(m) for m in M]; L = threading.Lock(); f = open(A.out, 'a')
    def work(w):
        while True:
            try: m = Q.get_nowait()
            except queue.Empty: return
            try: r = one(w, m)
            except Exception as e: r = dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), r='error %s' % e)
            with L: f.write(json.dumps(r) + '\n'); f.flush()
    T = [threading.Thread(target=work, args=(w,)) for w in range(A.jobs)]; [t.start() for t in T]; [t.join() for t in T]
main()
