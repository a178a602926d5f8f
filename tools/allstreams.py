#!/usr/bin/env python3
"""Development tool: runs all functional streams with few cases under ASan/UBSan and lists the properties that report something.  allstreams.py COUNT WORKERS"""
import os, sys, tempfile
H = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')); sys.path[:0] = [H, H + '/tools']
import run, multi, checks
n, W = int(sys.argv[1]), int(sys.argv[2]); run.NCPU = W
os.makedirs(run.BUILD, exist_ok=True)
exe = run.build('san', ['main'] + multi.FLOW)
hits = []
with tempfile.TemporaryDirectory() as work:
    for s in multi.STREAMS:
        k = max(20, int(n * multi.WEIGHT.get(s, 1.0) * (5 if s in ('C11', 'C12', 'C13', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24') else 1)))
        a = 0 if s not in ('C16', 'C17', 'C18') else 2000
        if s in ('C16', 'C17', 'C18'): k = 6000
        try: v = run.run_stream(exe, 'san', s, 1, a + k, 'quick', work, dict(done=0, stats={}, samples=[], hashes=set()), start=a, nworkers=W, stall=20)
        except run.NoAnswer as e: v = [str(e)]; print(e)
        if v: hits.append(s)
        if hits: break
print('HITS', *hits)
