#!/usr/bin/env python3-vt
"""check.py <property> [--entry regex] [--keep]: verifies the contracts of one property against /repo's
current tree.  Exit 0: all obligations discharged.  Exit 1: VIOLATION line(s).  Exit 2: error."""
import concurrent.futures as cf
import glob
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PV_REPO', '/repo')
CLANG = 'clang++-20'
BASE = ['-std=c++23', '-m64', '-msse4.1', '-include', HERE + '/rt/pre.h', '-fPIC', '-fbracket-depth=257',
        '-fdeclspec', '-ferror-limit=5', '-ffp-contract=off', '-fno-char8_t', '-w', '-DNDEBUG',
        '-I' + HERE + '/rt', '-I' + HERE + '/shim',
        '-DPROJECT_DIR=std::filesystem::path("x")', '-DSOLUTION_DIR=std::filesystem::path("./")',
        '-DTEMP_DIR=std::filesystem::path("/tmp")', '-DPLATFORM_WITH_CPU_FEATURES="x64"',
        '-fno-exceptions', '-fno-access-control', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_NO_ASSERTIONS',
        '-ftemplate-depth=2000', '-fconstexpr-steps=20000000']
VERIFY = ['-O1', '-fno-slp-vectorize', '-fno-vectorize', '-fno-unroll-loops', '-fno-math-errno', '-emit-llvm',
          '-gline-tables-only', '-DPV_VERIFY=1']
NATIVE = ['-O1', '-fno-math-errno', '-DPV_NATIVE=1']


def directives(path):
    d = {'flags': [], 'opts': {}, 'bounded': {}, 'assume': [], 'note': [], 'lemma': []}
    for l in open(path, encoding='utf-8'):
        m = re.match(r'//\s*pv-flags:\s*(.*)', l)
        if m:
            d['flags'] += m.group(1).split()
        m = re.match(r'//\s*pv-opt:\s*(\S+)\s+(.*)', l)
        if m:
            for kv in m.group(2).split():
                k, v = kv.split('=')
                d['opts'].setdefault(m.group(1), {})[k] = int(v) if v.isdigit() else v
        m = re.match(r'//\s*pv-bounded:\s*(\S+)\s+(.*)', l)
        if m:
            d['bounded'][m.group(1)] = m.group(2).strip()
        m = re.match(r'//\s*pv-assume:\s*(.*)', l)
        if m:
            d['assume'].append(m.group(1).strip())
        m = re.match(r'//\s*pv-lemma:\s*(.*)', l)
        if m:
            d['lemma'].append(m.group(1).strip())
    return d


def repo_flags(d, pb):
    f = ['-I' + pb, '-I' + REPO]
    if not any('PRINCIPIA_REQUIRES_AVX' in x for x in d['flags']):
        f += ['-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0']
    return f + d['flags']


def compile_spec(src, out, d, pb, native=False):
    cmd = [CLANG] + BASE + repo_flags(d, pb) + (NATIVE if native else VERIFY) + ['-c', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    return p.returncode, p.stderr


def build_native(src, outdir, d, pb, log):
    base = os.path.basename(src)[:-4]
    exe = os.path.join(outdir, base + '.native')
    if os.path.exists(exe):
        return exe
    o = os.path.join(outdir, base + '.native.o')
    rc, err = compile_spec(src, o, d, pb, native=True)
    if rc:
        log('native compilation failed: ' + err[:800])
        return None
    rt = os.path.join(outdir, 'vc_native.o')
    if not os.path.exists(rt):
        subprocess.run([CLANG, '-std=c++20', '-O1', '-c', HERE + '/rt/vc_native.cpp', '-o', rt], check=True)
    # Functions defined in .cpp files that the specification does not include: stubs that abort.
    nm = lambda f, k: {l.split()[-1] for l in subprocess.run(['nm', k, f], capture_output=True, text=True).stdout.splitlines()}
    missing = sorted(x for x in nm(o, '-u') - nm(rt, '--defined-only') if 'principia' in x)
    st = os.path.join(outdir, base + '.stubs.c')
    with open(st, 'w') as f:
        for k, x in enumerate(missing):
            f.write('extern void _exit(int); void stub%d(void) __asm__("%s"); void stub%d(void) { _exit(3); }\n' % (k, x, k))
    subprocess.run(['clang-20', '-fPIC', '-c', st, '-o', st + '.o'], check=True)
    p = subprocess.run([CLANG, '-rdynamic', o, rt, st + '.o', '-o', exe, '-Wl,--unresolved-symbols=ignore-all',
                        '-Wl,--allow-shlib-undefined', '-ldl'] + libs(), capture_output=True, text=True)
    if p.returncode:
        log('native link failed: ' + p.stderr[:800])
        return None
    return exe


def libs():
    out = []
    for l in ('protobuf',):
        out.append('-l' + l)
    for p in sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so')):
        out.append(p)
    return out


def entries(bc):
    p = subprocess.run(['llvm-nm-20', '--defined-only', '-j', bc], capture_output=True, text=True)
    return sorted(x for x in p.stdout.split() if re.match(r'vc[RF]_', x))


def worker(args):
    from pv import driver
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    bc, e, opts = args
    return driver.run_entry(bc, e, opts)


def run_native(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, ''


def known_findings(prop):
    try:
        k = json.load(open(HERE + '/known_findings.json'))
    except FileNotFoundError:
        return []
    return [x for x in k if x.get('property') == prop and x.get('status') == 'open']


def main():
    prop = sys.argv[1]
    only = None
    if '--entry' in sys.argv:
        only = re.compile(sys.argv[sys.argv.index('--entry') + 1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    bd = os.path.join(HERE, 'build', prop)
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    pb = os.path.join(bd, 'pb')
    os.makedirs(pb)
    log = lambda s: print(s, flush=True)
    srcs = sorted(glob.glob(os.path.join(HERE, 'specs', prop + '_*.cpp')))
    if not srcs:
        log('no specification for ' + prop)
        return 2
    protos = sorted(glob.glob(REPO + '/serialization/*.proto'))
    p = subprocess.run(['protoc', '-I' + REPO, '--cpp_out=' + pb] + protos, capture_output=True, text=True)
    if p.returncode:
        log('protoc failed: ' + p.stderr[:1000])
        return 2
    dirs = {s: directives(s) for s in srcs}
    jobs = []
    with cf.ThreadPoolExecutor(8) as tp:
        def comp(s):
            bc = os.path.join(bd, os.path.basename(s)[:-4] + '.bc')
            return s, bc, compile_spec(s, bc, dirs[s], pb)
        for s, bc, (rc, err) in tp.map(comp, srcs):
            if rc:
                log('ERROR: %s does not compile against the current tree:\n%s' % (os.path.basename(s), err[:3000]))
                return 2
            for e in entries(bc):
                if only and not only.search(e):
                    continue
                o = {'seed': seed, 'timeout': 20000 if tier == 'quick' else 120000,
                     'exec_limit': 300 if tier == 'quick' else 1500, 'limit': 550 if tier == 'quick' else 3000,
                     'spec': s}
                o.update(dirs[s]['opts'].get(e, {}))
                o.update({k: v for k, v in dirs[s]['opts'].get('*', {}).items() if k not in dirs[s]['opts'].get(e, {})})
                jobs.append((bc, e, o))
    for l in sorted({l for d in dirs.values() for l in d['lemma']}):
        v = os.path.join(bd, os.path.basename(l))
        shutil.copy(os.path.join(HERE, l), v)
        p = subprocess.run(['coqc', v], capture_output=True, text=True)
        if p.returncode:
            log('ERROR: Coq rejects %s: %s' % (l, (p.stdout + p.stderr)[-1000:]))
            return 2
        log('%s: accepted by Coq' % l)
    compile_s = time.time() - t0
    if not jobs:
        log('ERROR: no specification entries')
        return 2
    jobs.sort(key=lambda j: -j[2].get('cost', 0))
    results = []
    ctx = multiprocessing.get_context('fork')
    with cf.ProcessPoolExecutor(8, mp_context=ctx, max_tasks_per_child=None) as pp:
        futs = {pp.submit(worker, j): j for j in jobs}
        for f in cf.as_completed(futs):
            j = futs[f]
            try:
                r = f.result()
            except Exception as e:
                r = {'entry': j[1], 'spec': j[2]['spec'], 'obligations': [], 'functions': [], 'assumed': [],
                     'error': 'worker died: %r' % e, 'paths': 0, 'vacuous': False, 'stats': {}, 'solver_s': 0,
                     'ctor_failures': [], 's': 0}
            results.append(r)
            bad = [o for o in r['obligations'] if o['verdict'] != 'proved']
            log('%-44s %3d obligations, %3d discharged, %d paths, %.1fs%s' % (
                r['entry'], len(r['obligations']), len(r['obligations']) - len(bad), r['paths'], r['s'],
                '' if not r['error'] else '  ' + r['error'].strip().split('\n')[-1][:300]))
    results.sort(key=lambda r: r['entry'])
    return report(prop, tier, seed, t0, compile_s, results, dirs, bd, pb, log)


def report(prop, tier, seed, t0, compile_s, results, dirs, bd, pb, log):
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    findings = known_findings(prop)
    violations = []
    reported_findings = set()
    error = None
    for r in results:
        if 'internal error' in (r['error'] or '') or 'worker died' in (r['error'] or ''):
            log(r['error'])
        bad = {}
        for o in r['obligations']:
            if o['verdict'] != 'proved':
                cur = bad.get(o['label'])
                if cur is None or (cur['verdict'] != 'refuted' and o['verdict'] == 'refuted'):
                    bad[o['label']] = o
        if r['error']:
            bad.setdefault('all obligations generated', {'label': 'all obligations generated', 'verdict': 'unknown',
                                                        'info': r['error'], 'backend': 'executor'})
        if not bad and (r['vacuous'] or not r['obligations']):
            bad['precondition is satisfiable and some obligation is generated'] = {
                'label': 'precondition is satisfiable and some obligation is generated', 'verdict': 'unknown',
                'info': 'vacuous', 'backend': 'executor'}
        if not bad:
            continue
        # Known findings
        rest = {}
        for l, o in bad.items():
            hit = None
            for k in findings:
                if re.fullmatch(k['entry'], r['entry']) and re.search(k['obligation'], l):
                    hit = k
            if hit:
                if hit['id'] not in reported_findings:
                    log('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
                reported_findings.add(hit['id'])
            else:
                rest[l] = o
        if not rest:
            continue
        exe = build_native(r['spec'], bd, dirs[r['spec']], pb, log)
        for n, (l, o) in enumerate(sorted(rest.items(), key=lambda x: x[1]['verdict'] != 'refuted')):
            rep = os.path.join(rdir, '%s.%s.%d.txt' % (prop, r['entry'], n))
            confirmed = None
            if exe and n < 4:
                if o.get('inputs'):
                    with open(rep + '.in', 'w') as f:
                        f.write('\n'.join(o['inputs']) + '\n')
                    rc, out = run_native(exe, [r['entry'], 'replay', rep + '.in'], 20)
                    os.unlink(rep + '.in')
                    if rc == 1 and 'FAILED' in out:
                        confirmed = 'counterexample of the verifier replayed on the real code:\n' + out
                if not confirmed and n == 0:
                    rc, out = run_native(exe, [r['entry'], 'random', str(seed), '20000'], 30)
                    if rc == 1 and 'FAILED' in out:
                        confirmed = 'failing input found by running the real code on random inputs ' \
                                    'satisfying the precondition:\n' + out
            with open(rep, 'w') as f:
                f.write('property %s\nspecification %s\nentry %s\nobligation %s\nverdict %s by %s\n' % (
                    prop, os.path.relpath(r['spec'], HERE), r['entry'], l, o['verdict'], o['backend']))
                if o.get('info'):
                    f.write('verifier output: %s\n' % o['info'])
                if o.get('inputs'):
                    f.write('verifier counterexample:\n%s\n' % '\n'.join(o['inputs']))
                if confirmed:
                    f.write(confirmed + '\n')
                f.write('replay: compile the specification with check.py, then '
                        '<native program> %s replay <this file>\n' % r['entry'])
            violations.append((rep, l, r['entry'], confirmed, o))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, dirs, violations, wall, compile_s)
    # A confirmed input is reported first.
    violations.sort(key=lambda v: v[3] is None)
    for rep, l, e, confirmed, o in violations:
        log('failed obligation: [%s] %s (%s by %s)' % (e, l, o['verdict'], o['backend']))
    if violations:
        any_conf = any(v[3] for v in violations)
        for rep, l, e, confirmed, o in violations:
            if any_conf and not confirmed:
                continue
            log('VIOLATION property=%s replay=%s%s' % (
                prop, rep, '' if confirmed else ' no-failing-input-found'))
            if not any_conf:
                break
        return 1
    log('%s: all obligations discharged in %.1f s' % (prop, wall))
    return 0


def write_evidence(prop, tier, seed, results, dirs, violations, wall, compile_s):
    level = 'proof'
    try:
        for c in json.load(open(HERE + '/MANIFEST.json'))['checks']:
            if c['property'] == prop:
                level = c['level']
    except Exception:
        pass
    proofs, bounded = [], []
    for r in results:
        bd = dirs[r['spec']]['bounded']
        b = next((v for k, v in bd.items() if k == '*' or re.fullmatch(k, re.sub('^vc[RF]_', '', r['entry'])) or k == r['entry']), None)
        (bounded if b else proofs).append((r, b))
    ob = sum(len(r['obligations']) for r, _ in proofs)
    di = sum(sum(o['verdict'] == 'proved' for o in r['obligations']) for r, _ in proofs)
    stats = {}
    for r, _ in proofs:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    fns = sorted({f for r in results for f in r['functions']})
    assumed = sorted({a for r in results for a in r['assumed']})
    for d in dirs.values():
        assumed += d['assume'] + ['lemmas of %s, machine-checked by coqc (with the Flocq library and the classical axioms of the reals)' % l for l in d['lemma']]
    if any(r['entry'].startswith('vcR_') for r in results):
        assumed.append('in entries vcR_*: machine arithmetic on doubles treated as exact real arithmetic '
                       '(no rounding, overflow, NaN or infinity)')
    assumed += ['clang 20 -O1 translates the C++ of /repo to LLVM IR faithfully',
                'the semantics of LLVM IR, of malloc/memcpy and the C++ runtime as modelled in pv/exec.py and pv/externs.py',
                'CHECK and LOG(FATAL) are taken from shim/absl/log (abseil logging is absent from this sandbox); '
                'DCHECK is compiled out as in release builds']
    backends = {'ring': 'exact polynomial/rational-function normal form', 'ring-tol': 'same, up to 1e-11 relative '
                'rounding of floating-point constants', 'groebner': 'ideal membership (sympy)', 'z3': 'Z3 5.3', 'cvc5': 'cvc5',
                'trivial': 'decided by term simplification'}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 2),
          'violations': len(violations), 'assumptions': assumed,
          'coverage': {
              'obligations': ob, 'discharged': di,
              'checker_cmd': 'python3-vt /verif/check.py %s' % prop,
              'trusted_base': ['clang++-20 front end and -O1 pipeline', 'pv symbolic executor and ring back end',
                               'Z3', 'cvc5', 'sympy groebner'],
              'discharged_by_back_end': {k: {'count': v, 'what': backends.get(k, k)} for k, v in stats.items()},
              'solver_s': round(sum(r['solver_s'] for r in results), 2),
              'compile_s': round(compile_s, 2),
              'specification_entries': {r['entry']: {
                  'obligations': len(r['obligations']), 'discharged': sum(o['verdict'] == 'proved' for o in r['obligations']),
                  'paths': r['paths'], 'seconds': r['s']} for r, _ in proofs},
              'bounded_checks_not_counted_as_proved': {r['entry']: {
                  'bound': b, 'obligations': len(r['obligations']),
                  'discharged': sum(o['verdict'] == 'proved' for o in r['obligations'])} for r, b in bounded},
              'functions_under_contract': fns, 'functions_under_contract_count': len(fns),
          }}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


if __name__ == '__main__':
    sys.exit(main())
