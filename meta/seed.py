#!/usr/bin/env python3
"""seed.py [id regex] [--nocheck] [--gen-only]: regenerates /verif/seeded/<id>/ from meta/seeds.py, and confirms each
planted change: demo passes on the unchanged tree, fails with the change; build and stable tests pass with it; and
reports whether the property's check catches it."""
import difflib, json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS
DEMO_SH = r'''#!/bin/bash
# Run with cwd /repo.  Exit 0 when the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/pb"
protoc -I. --cpp_out="$W/pb" serialization/*.proto || exit 0
clang++-20 -std=c++23 -m64 -msse4.1 -O1 -w -include "$D/pre.h" -fbracket-depth=257 -fdeclspec -fno-char8_t -fno-access-control \
  -DNDEBUG %(flags)s -I"$W/pb" -I. -I"$D" -I"$D/shim" '-DPROJECT_DIR=std::filesystem::path("x")' \
  '-DSOLUTION_DIR=std::filesystem::path("./")' '-DTEMP_DIR=std::filesystem::path("/tmp")' '-DPLATFORM_WITH_CPU_FEATURES="x64"' \
  -ftemplate-depth=2000 -fconstexpr-steps=20000000 \
  -c "$D/demo.cpp" -o "$W/demo.o" || { echo "demo does not compile"; exit 1; }
clang++-20 "$W/demo.o" %(pbs)s -o "$W/demo" -lprotobuf $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) -lpthread || { echo "demo does not link"; exit 1; }
timeout 100 "$W/demo"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def gen(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = ''
    done = {}
    for f, old, new in s['edits']:
        a = open('/repo/' + f, encoding='utf-8', newline='').read()
        b = done.get(f, (a, a))[1]
        if '\r\n' in a:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert b.count(old) == 1, (s['id'], f, b.count(old))
        done[f] = (a, b.replace(old, new))
    for f, (a, b) in done.items():
        nl = lambda t: t.splitlines(keepends=True)
        for l in difflib.unified_diff(nl(a), nl(b), 'a/' + f, 'b/' + f):
            patch += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
    open(d + '/patch.diff', 'w', newline='').write(patch)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    pbs = s.get('pbs', [])
    if pbs == 'ALL':
        pbs = sorted(x[:-6] for x in os.listdir('/repo/serialization') if x.endswith('.proto'))
    pre = ''.join('clang++-20 -std=c++23 -O1 -w -I"$W/pb" -c "$W/pb/serialization/%s.pb.cc" -o "$W/%s.o" || exit 1\n' % (p, p) for p in pbs)
    t = DEMO_SH % {'flags': s.get('flags', '-DPRINCIPIA_REQUIRES_AVX=0 -DPRINCIPIA_REQUIRES_FMA=0'), 'pbs': ' '.join('"$W/%s.o"' % p for p in pbs)}
    t = t.replace('clang++-20 "$W/demo.o"', pre + 'clang++-20 "$W/demo.o"')
    open(d + '/demo.sh', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(V + '/rt/pre.h', d)
    open(d + '/vc_check_failed.h', 'w').write('#include <cstdio>\n#include <cstdlib>\nextern "C" [[noreturn]] inline void vc_check_failed(const char* s) { std::printf("fatal: %s\\n", s); std::exit(3); }\n')
    shutil.copytree(V + '/shim', d + '/shim')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return d
def main():
    pat = re.compile(next((a for a in sys.argv[1:] if not a.startswith('-')), '.'))
    for s in SEEDS:
        if not pat.search(s['id']):
            continue
        d = gen(s)
        if '--gen-only' in sys.argv:
            continue
        if '--scratch' in sys.argv:  # Demonstrations only, in a scratch copy.
            W = '/tmp/m/seedrepo'
            os.makedirs(W, exist_ok=True)
            sh('rsync -a --delete --exclude .git --exclude _build /repo/ %s/' % W)
            r0 = sh('bash %s/demo.sh' % d, cwd=W)
            a = sh('patch -p1 --binary < %s/patch.diff' % d, cwd=W)
            r1 = sh('bash %s/demo.sh' % d, cwd=W)
            c = ''
            if '--nocheck' not in sys.argv:
                k = sh('PV_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % (W, s['prop']), cwd=V)
                vl = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                c = 'check rc=%d %s' % (k.returncode, vl[:1])
                try:
                    res = json.load(open(HERE + '/seed_results.json'))
                except FileNotFoundError:
                    res = {}
                res[s['id']] = ('yes' + (' (no failing input)' if all('no-failing' in v for v in vl) else '')) if k.returncode == 1 and vl else 'no'
                json.dump(dict(sorted(res.items())), open(HERE + '/seed_results.json', 'w'), indent=1)
            print(s['id'], 'apply=%d demo clean=%d patched=%d' % (a.returncode, r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-700:] if r0.returncode else (r1.stdout+r1.stderr)[-100:], c, flush=True)
            continue
        assert not sh('git -C /repo status --short --untracked-files=no').stdout.strip(), 'repo dirty'
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        ap = sh('git -C /repo apply %s/patch.diff' % d)
        try:
            assert ap.returncode == 0, ap.stderr
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            t = sh('bash /opt/vp/test.sh /tmp/o.json')
            o = json.load(open('/tmp/o.json'))
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            tests = st <= set(o['passed'])
            c = ''
            if '--nocheck' not in sys.argv:
                k = sh('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % s['prop'], cwd=V)
                vl = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                c = 'check rc=%d %s' % (k.returncode, vl[:1]) + (k.stdout[-600:] if k.returncode not in (0, 1) else '')
        finally:
            sh('git -C /repo checkout -- .')
        print(s['id'], 'demo clean=%d patched=%d' % (r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-500:] if r0.returncode else '', 'tests', tests, c, flush=True)
main()
