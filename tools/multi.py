"""C26 and C31: all streams, under several builds."""
import os, re, time

FLOW = ['h_flow1', 'h_flow2', 'h_flow3', 'h_flow4', 'h_pairs', 'h_graph', 'h_misc', 'h_soup']
STREAMS = ['C%02d' % k for k in range(1, 26)] + ['C26', 'C32', 'C33', 'C34', 'C35', 'C36']
VALGRIND = ['valgrind', '-q', '--vgdb=no', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=full', '--errors-for-leak-kinds=definite,indirect', '--main-stacksize=8388608']
# cases per stream: relative cost
WEIGHT = {'C25': 0.1, 'C05': 0.7, 'C06': 0.7, 'C09': 0.5, 'C32': 0.6, 'C33': 0.6, 'C34': 0.6, 'C35': 0.6, 'C36': 0.6, 'C26': 2.0, 'C16': 2.0, 'C17': 2.0, 'C18': 2.0}

def memory_only(viol):
    return [v for v in viol if v['key'] in ('crash', 'leak', 'exit', 'hang')]

def spread(run, jobs, stop=lambda r: False, limit=550):
    """Runs jobs (callables) a few at a time: each uses few workers.  None for jobs left out after a result that
    settles the verdict, or after the time limit."""
    from concurrent.futures import ThreadPoolExecutor
    state, t0 = {}, time.time()
    def go(j):
        if state or time.time() - t0 > limit: return None
        r = j()
        if stop(r): state['stop'] = 1
        return r
    with ThreadPoolExecutor(run.NCPU) as ex: return [f.result() for f in [ex.submit(go, j) for j in jobs]]

def first(s, tier, few=False):
    """First case of a stream: C16-C18 begin with all small graphs, which would use up the cases."""
    if s not in ('C16', 'C17', 'C18'): return 0
    end = 4627 if tier == 'quick' else 1118739
    return end - (10 if few else 120)

def newtot(): return dict(done=0, stats={}, samples=[], hashes=set())

def c26(run, prop, tier, seed, work, tot, count):
    base = count or (1200 if tier == 'quick' else 20000)
    dbg = base // 4
    vg = 24 if tier == 'quick' else 300
    viol, per = [], {}
    plan = []
    for variant, n, prefix in (('san', base, None), ('dbg', dbg, None), ('vg', vg, VALGRIND)):
        exe = run.build(variant, ['main'] + FLOW)
        for s in STREAMS:
            k = max(8, int(n * WEIGHT.get(s, 1.0)))
            plan.append((variant, exe, s, k, prefix))
    plan.sort(key=lambda q: q[0] != 'vg')           # slow ones first
    def job(q):
        variant, exe, s, k, prefix = q
        t = newtot()
        a = first(s, tier, k < 200)
        v = run.run_stream(exe, variant, s, seed + 1000, a + k, tier, work, t, start=a, nworkers=1, prefix=prefix, stall=100)
        return variant, s, t, memory_only(v), [x for x in v if x not in memory_only(v)]
    other = 0
    skipped = 0
    for res in spread(run, [lambda q=q: job(q) for q in plan], lambda r: bool(r[3]), 550 if tier == 'quick' else 36000):
        if res is None: skipped += 1; continue
        variant, s, t, v, o = res
        viol += v; other += len(o)
        tot['done'] += t['done']; tot['hashes'].update(variant + h for h in t['hashes'])
        if len(tot['samples']) < 4: tot['samples'] += t['samples'][:1]
        per.setdefault(variant, {})[s] = t['done']
        for k, n in t['stats'].items():
            if k.startswith(('kind ', 'calls_', 'leak_check')): tot['stats'][k] = tot['stats'].get(k, 0) + n
    return viol, dict(cases_by_build_and_stream=per, batches_left_out=skipped, functional_complaints_left_to_other_checks=other)

def c31(run, prop, tier, seed, work, tot, count):
    base = count or (1000 if tier == 'quick' else 15000)
    builds = [('o2', {}), ('o2', {'MALLOC_PERTURB_': '90'}), ('o2', {'MALLOC_PERTURB_': '255'}), ('o3n', {'MALLOC_PERTURB_': '165'}), ('o0', {'MALLOC_PERTURB_': '1'}), ('c3n', {})]
    exes = {v: run.build(v, ['main'] + FLOW) for v in sorted({b[0] for b in builds} | {'vg'})}
    viol = []
    def job(b, s, k):
        variant, envx = builds[b]
        w = os.path.join(work, 'b%d.%s' % (b, s)); os.makedirs(w, exist_ok=True)
        t = newtot()
        a = first(s, tier)
        v = run.run_stream(exes[variant], variant, s, seed + 2000, a + k, tier, w, t, start=a, nworkers=1, envx=envx, digests=True, stall=100)
        dig = {}
        for f in os.listdir(w):
            if f.endswith('.dig'):
                for l in open(os.path.join(w, f)):
                    q = l.split()
                    if len(q) == 2 and len(q[1]) == 16: dig[int(q[0])] = q[1]
        return b, s, t, v, dig
    def vjob(s, k):
        t = newtot()
        a = first(s, tier, True)
        v = run.run_stream(exes['vg'], 'vg', s, seed + 3000, a + k, tier, work, t, start=a, nworkers=1, prefix=VALGRIND, stall=100)
        return 'vg', s, t, memory_only(v), {}
    jobs, size = [], {}
    vn = 16 if tier == 'quick' else 250
    for s in STREAMS: jobs.append(lambda s=s: vjob(s, max(8, int(vn * WEIGHT.get(s, 1.0)))))
    for s in STREAMS:
        size[s] = max(20, int(base * WEIGHT.get(s, 1.0)))
        for b in range(len(builds)): jobs.append(lambda b=b, s=s: job(b, s, size[s]))
    res = spread(run, jobs, lambda r: r[0] == 'vg' and bool(r[3]), 550 if tier == 'quick' else 36000)
    digs, crash, vgdone, skipped = {}, {}, 0, 0
    for q in res:
        if q is None: skipped += 1; continue
        b, s, t, v, d = q
        if b == 'vg': viol += v; vgdone += t['done']; continue
        tot['done'] += t['done']; digs[b, s] = d
        if b == 0: tot['hashes'].update(s + h for h in t['hashes']); tot['samples'] += t['samples'][:1] if len(tot['samples']) < 4 else []
        for x in memory_only(v): crash.setdefault((s, x['idx']), []).append((b, x))
    name = lambda b: builds[b][0] + (' heap fill ' + builds[b][1]['MALLOC_PERTURB_'] if builds[b][1] else '')
    compared = 0
    for (s, idx), l in crash.items():
        if len({b for b, _ in l}) < len([b for b in range(len(builds)) if (b, s) in digs]):
            x = l[0][1]; viol.append(dict(x, key='differs', msg='with %s only: %s' % (', '.join(name(b) for b, _ in l), x['msg'])))
    for s in STREAMS:
        if any((b, s) not in digs for b in range(len(builds))): continue
        keys = set.intersection(*[set(digs[b, s]) for b in range(len(builds))])
        for k in sorted(keys):
            compared += 1
            bad = [b for b in range(1, len(builds)) if digs[b, s][k] != digs[0, s][k]]
            if bad:
                viol.append(dict(stream=s, variant=builds[bad[0]][0], seed=seed + 2000, tier=tier, idx=k, key='differs', env=builds[bad[0]][1], log='',
                                 msg='results of case %s/%d differ between %s and %s' % (s, k, name(0), ', '.join(name(b) for b in bad))))
                break
    return viol, dict(cases_compared=compared, builds=[name(b) for b in range(len(builds))], cases_under_memcheck=vgdone, batches_left_out=skipped)

def replay31(run, v):
    """Shows the digests of the case under all builds."""
    import subprocess
    print(v['msg'])
    seen = set()
    for variant, envx in (('o2', {}), ('o2', {'MALLOC_PERTURB_': '90'}), ('o3n', {'MALLOC_PERTURB_': '165'}), ('o0', {'MALLOC_PERTURB_': '1'}), ('c3n', {})):
        exe = run.build(variant, ['main'] + FLOW)
        work = os.path.join(run.BUILD, 'work'); os.makedirs(work, exist_ok=True)
        f = os.path.join(work, 'replay31.dig')
        subprocess.call([exe, '--prop', v['stream'], '--seed', str(v['seed']), '--from', str(v['idx']), '--to', str(v['idx'] + 1), '--tier', v['tier'], '--digests', f], env=run.env_for(variant, envx))
        d = open(f).read().strip(); os.remove(f); print(variant, envx, d); seen.add(d)
    if v['variant'] == 'vg':
        exe = run.build('vg', ['main'] + FLOW)
        if subprocess.call(VALGRIND + [exe, '--prop', v['stream'], '--seed', str(v['seed']), '--from', str(v['idx']), '--to', str(v['idx'] + 1), '--tier', v['tier']]) == 97: seen.add('memcheck')
    if len(seen) > 1: print('VIOLATION property=C31 replay=-'); return 1
    print('the case passes'); return 0

def replay26(run, v):
    exe = run.build(v['variant'], ['main'] + FLOW)
    work = os.path.join(run.BUILD, 'work', 'replay.%d' % os.getpid()); os.makedirs(work, exist_ok=True)
    w = run.Worker(exe, v['variant'], work, 'r', v['stream'], v['seed'], v['idx'], v.get('to', v['idx'] + 1), v.get('stride', 1), v['tier'], prefix=VALGRIND if v['variant'] == 'vg' else None, stall=150)
    rc = w.wait(); print(w.log()[-8000:])
    if rc in (0, 10): print('the case passes'); return 0
    print('VIOLATION property=C26 replay=-'); return 1
