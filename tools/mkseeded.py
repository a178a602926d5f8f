#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id> from edits, in a scratch copy of /repo.
  mkseeded.py [ID...]      (definitions in seedbugs.py)"""
import os, sys, subprocess, shutil, json
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import seedbugs
WT = '/tmp/wt'; OUT = os.path.join(H, '..', 'seeded')

DEMO = '''#!/bin/bash
# Builds the library sources of the current directory with demo.cpp and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
FLAGS="%s"
for f in opm/utility/graph/*.c; do gcc $FLAGS -I. -c "$f" -o "$t/$(basename $f).o" || exit 2; done
for f in opm/flowdiagnostics/*.cpp opm/utility/graph/*.cpp opm/utility/numeric/*.cpp; do g++ -std=c++11 $FLAGS -I. -c "$f" -o "$t/$(basename $f).o" || exit 2; done
g++ -std=c++11 $FLAGS -I. "$d/demo.cpp" "$t"/*.o -o "$t/demo" %s || exit 2
timeout 120 "$t/demo"
rc=$?
if [ $rc -eq 0 ]; then echo "behaves as it should"; else echo "broken (status $rc)"; fi
exit $rc
'''
HEAD = '''#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <opm/utility/numeric/RandomVector.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using namespace Opm;
using namespace Opm::FlowDiagnostics;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); std::exit(1); } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(b)); }
static const double CAP = 200.0 * 365 * 24 * 3600;
struct Conn { int a, b; double f; };
static ConnectionValues fluxOf(const std::vector<Conn>& c)
{
    ConnectionValues v(ConnectionValues::NumConnections{ c.size() }, ConnectionValues::NumPhases{ 1 });
    for (std::size_t k = 0; k < c.size(); ++k) v(ConnectionValues::ConnID{ k }, ConnectionValues::PhaseID{ 0 }) = c[k].f;
    return v;
}
static Toolbox model(int n, const std::vector<Conn>& c, const std::vector<double>& pv, const std::map<CellSetID, CellSetValues>& w)
{
    std::vector<int> q; for (auto& e : c) { q.push_back(e.a); q.push_back(e.b); }
    Toolbox t{ ConnectivityGraph(n, q) };
    t.assignPoreVolume(pv); t.assignConnectionFlux(fluxOf(c)); t.assignInflowFlux(w);
    return t;
}
static CellSetID ID(const char* s) { return CellSetID(s); }
static CellSet set(const char* s, std::vector<int> c) { return CellSet(CellSetID(s), c); }
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    if not os.path.exists(WT): sh('git -C /repo worktree prune; git clone -q /repo %s' % WT)
    assert sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (WT, WT)).returncode == 0
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in seedbugs.BUGS:
        if len(sys.argv) > 1 and b['id'] not in sys.argv[1:]: continue
        sh('git -C %s checkout -q -- .' % WT)
        d = os.path.join(OUT, b['id']); os.makedirs(d, exist_ok=True)
        with open(d + '/demo.sh', 'w') as f: f.write(DEMO % (b.get('flags', '-O2 -g'), b.get('link', '')))
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.cpp', 'w') as f: f.write(HEAD + b['demo'].lstrip('\n'))
        with open(d + '/meta.json', 'w') as f: json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
        clean = sh('bash %s/demo.sh' % d, cwd=WT)
        for fn, a, r in b['edits']:
            p = os.path.join(WT, fn); s = open(p).read()
            if s.count(a) != b.get('occ', {}).get(a, 1): print(b['id'], 'EDIT DOES NOT MATCH', s.count(a), a); break
            open(p, 'w').write(s.replace(a, r))
        else:
            with open(d + '/patch.diff', 'w') as f: f.write(sh('git -C %s diff' % WT).stdout)
            bad = sh('bash %s/demo.sh' % d, cwd=WT)
            B = sh('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2 -g" -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" && ninja -C _b', cwd=WT)
            T = sh('python3 /opt/vp/run_boost_cases.py _b', cwd=WT)
            fails = [l for l in T.stdout.splitlines() if l.startswith('FAIL')]; npass = sum(l.startswith('PASS') for l in T.stdout.splitlines())
            ok = clean.returncode == 0 and bad.returncode not in (0, 2) and B.returncode == 0 and not fails and npass >= 41
            print(b['id'], 'ok' if ok else 'NOT OK', 'clean', clean.returncode, 'bad', bad.returncode, 'build', B.returncode, 'pass', npass, 'fail', fails[:3])
            if not ok: print(clean.stdout[-800:], bad.stdout[-800:], B.stdout[-800:] if B.returncode else '')
    sh('git -C %s checkout -q -- .' % WT)
main()
