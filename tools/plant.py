#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes planted bugs from a spec in a scratch clone (/tmp/sw/repo), verifies them
(builds, stable tests pass, demo passes without and fails with the change), stores them in /verif/seeded and
reports whether the property's quick check catches them.  Never run by a check."""
import sys, os, json, subprocess, shutil
W = '/tmp/sw/repo'; SRC = 'src/icl_core/src/'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# Runs in the repository root. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
S=$PWD/src/icl_core/src
g++ -std=gnu++17 -O1 -w -DTIXML_USE_STL -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ -D_IC_BUILDER_BOOST_ -D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_BOOST_SYSTEM_ -D_IC_BUILDER_EIGEN3_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_HAS_TIME_H_ -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_PTHREAD_ -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux \\
  -I"$S" -I/opt/vp/compat "$here/demo.cpp" -o "$tmp/demo" -L"$PWD/_build/lib" %(libs)s -lboost_system -lboost_filesystem -lboost_regex -lboost_thread -lpthread -ldl || exit 4
cd "$tmp" && LD_LIBRARY_PATH="$OLDPWD/_build/lib" timeout 60 ./demo
'''
ALLLIBS = '-licl_core_performance_monitor -licl_core_dispatch -licl_core_plugin -licl_core_thread -licl_core_logging -licl_core_config -licl_core'
def build():
    r = sh('export CC=gcc CXX=g++ LC_ALL=C.UTF-8; ninja -C _build', cwd=W); return r.returncode == 0, r.stdout
def tests():
    r = sh('export LC_ALL=C.UTF-8 TZ=UTC; cd _build && python3 /opt/vp/run_boost_tests.py /tmp/sw/rep.txt bin/ts_*', cwd=W)
    ok = {l[5:].strip() for l in open('/tmp/sw/rep.txt') if l.startswith('PASS')}
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
    sh('git fetch -q && git checkout -q -f origin/HEAD && git clean -fdq -e _build', cwd=W)
    todo = [s for s in ns['SEEDS'] if not only or s['id'] in only]
    ok, out = build(); assert ok, out[-2000:]
    good = {}
    for s in todo:
        d = V + '/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO % dict(libs=s.get('libs', ALLLIBS))); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = sh(d + '/demo.sh', cwd=W); good[s['id']] = r.returncode == 0
        if r.returncode: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-1500:])
    for s in todo:
        if not good[s['id']]: continue
        d = V + '/seeded/' + s['id']
        try:
            bad = False
            for f, a, b in s['edits']:
                p = W + '/' + SRC + f; t = open(p, newline='').read()
                if '\r\n' in t: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
                if t.count(a) != 1: print(s['id'], 'EDIT MATCHES', t.count(a), 'TIMES:', a); bad = True; break
                open(p, 'w', newline='').write(t.replace(a, b))
            if bad: continue
            open(d + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=W, stdout=subprocess.PIPE).stdout.decode('latin1'))
            ok, out = build()
            if not ok: print(s['id'], 'DOES NOT BUILD', out[-1500:]); continue
            r = sh(d + '/demo.sh', cwd=W); dm = r.returncode
            miss = tests()
            e = dict(os.environ, VF_REPO=W, VF_BUILD='/tmp/sw/vfb', VERIF_TIER='quick'); sh('mkdir -p /tmp/sw/vfb; cp -rn %s/build/engine-* /tmp/sw/vfb/' % V)
            c = sh('timeout 900 ./check ' + s['prop'], cwd=V, env=e)
            viol = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            print('%-28s %s demo=%s tests=%s check=%s %s' % (s['id'], s['prop'], 'fails' if dm else 'PASSES(BAD)', 'ok' if not miss else 'BROKEN ' + str(miss[:3]), 'CAUGHT' if viol else 'MISSED rc=%d' % c.returncode, '' if viol else c.stdout[-600:]), flush=True)
        finally: sh('git checkout -q -f -- .', cwd=W)
    build()
main()
