"""Runs one specification entry: symbolic execution, discharge, result dictionary."""
import os
import sys
import time
import traceback
import re
from . import terms as T
from . import ir, exec as X, prove, externs


def input_lines(inputs, sample, extra=None):
    out = []
    for name, (v, kind) in inputs.items():
        if kind == 'array':
            a = sample.fixed.get(name)
            if a is not None:
                out.append('INPUT %s array %s' % (name, ''.join('%02x' % a.get(i) for i in range(256))))
            continue
        if name not in sample.fixed:
            sample.value(v)
        x = sample.fixed[name]
        if isinstance(x, float):
            x = x.hex() if x == x and abs(x) != float('inf') else repr(x)
        out.append('INPUT %s %s %s' % (name, kind, x))
    return out


def run_entry(bc, entry, opts):
    t0 = time.time()
    res = {'entry': entry, 'spec': opts.get('spec', ''), 'obligations': [], 'functions': [], 'assumed': [], 'error': None, 'paths': 0,
           'vacuous': False, 'stats': {}, 'solver_s': 0.0, 'covers': {}, 'ctor_failures': []}
    real = entry.startswith('vcR_')
    try:
        m = ir.Module(bc)
        sol = prove.Solver(real, seed=opts.get('seed', 1), timeout=opts.get('timeout', 10000),
                           nsamples=opts.get('samples', 24))
        ex = X.Executor(m, real, sol, {'deadline': t0 + opts.get('exec_limit', 300),
                                       'max_steps': opts.get('max_steps', 20000000),
                                       'max_paths': opts.get('max_paths', 20000)})
        for g in opts.get('contracts', []):
            pass
        ex.returned = []
        err = None
        try:
            ex.run(entry)
        except X.Unsupported as e:
            err = 'unsupported: %s' % e
        res['exec_s'] = time.time() - t0
        res['paths'] = ex.paths
        deadline = t0 + opts.get('limit', 600)
        seen = {}
        fails = 0
        for o in ex.obls:
            if o.kind == 'eq':
                key = ('eq', o.label, o.path, id(o.a) if T.is_t(o.a) else o.a, id(o.b) if T.is_t(o.b) else o.b)
            else:
                key = (o.kind, o.label, o.path, id(o.goal))
            if key in seen:
                continue
            seen[key] = True
            t1 = time.time()
            if t1 > deadline:
                v = ('unknown', 'none', 'time limit')
            elif fails >= 6:
                v = ('unknown', 'none', 'skipped after earlier failures')
            else:
                try:
                    v = sol.discharge(o)
                except Exception as e:
                    v = ('unknown', 'none', 'internal: %r %s' % (e, traceback.format_exc()[-600:]))
            if v[0] != 'proved':
                fails += 1
            d = {'kind': o.kind, 'label': o.label, 'verdict': v[0], 'backend': v[1], 's': round(time.time() - t1, 3)}
            if v[0] == 'refuted' and v[2] is not None:
                try:
                    d['inputs'] = input_lines(o.inputs, v[2])
                except Exception as e:
                    d['inputs'] = []
            elif v[0] != 'proved':
                d['info'] = str(v[2])[:2000]
            res['obligations'].append(d)
        res['error'] = err
        res['stats'] = {k: v for k, v in sol.stats.items() if v}
        res['solver_s'] = round(sol.time, 3)
        res['assumed'] = sorted(ex.assumed)
        res['ctor_failures'] = ex.ctor_failures[:5]
        # Vacuity: some path must reach the end of the specification.
        if not err and not any(d['verdict'] == 'refuted' for d in res['obligations']):
            res['vacuous'] = not ex.nonvacuous()
        res['functions'] = functions(m, ex)
    except Exception as e:
        res['error'] = 'internal error: %s' % traceback.format_exc()[-1500:]
    res['s'] = round(time.time() - t0, 3)
    return res


def functions(m, ex):
    """Repository functions whose code was executed, including inlined ones (from debug locations)."""
    import ctypes as C
    L = ir.lib()
    P = C.c_void_p
    for n, r, a in (('LLVMInstructionGetDebugLoc', P, [P]), ('LLVMDILocationGetScope', P, [P]),
                    ('LLVMDILocationGetInlinedAt', P, [P]), ('LLVMMetadataAsValue', P, [P, P]),
                    ('LLVMDIScopeGetFile', P, [P]), ('LLVMDIFileGetFilename', P, [P, C.POINTER(C.c_uint)]),
                    ('LLVMDIFileGetDirectory', P, [P, C.POINTER(C.c_uint)])):
        f = getattr(L, n)
        f.restype, f.argtypes = r, a
    seen = set()
    scopes = set()
    out = set()
    for fn in ex.executed:
        f = m.funcs[fn]
        if f.decl:
            continue
        b = L.LLVMGetFirstBasicBlock(f.ref)
        while b:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                loc = L.LLVMInstructionGetDebugLoc(i)
                while loc and loc not in seen:
                    seen.add(loc)
                    scopes.add(L.LLVMDILocationGetScope(loc))
                    loc = L.LLVMDILocationGetInlinedAt(loc)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
    for sc in scopes:
        fr = L.LLVMDIScopeGetFile(sc)
        if not fr:
            continue
        n = C.c_uint()
        p = L.LLVMDIFileGetFilename(fr, C.byref(n))
        name = C.string_at(p, n.value).decode() if p else ''
        if not name.startswith('/'):
            p = L.LLVMDIFileGetDirectory(fr, C.byref(n))
            name = (C.string_at(p, n.value).decode() if p else '') + '/' + name
        if '/repo/' not in name or '/verif/' in name:
            continue
        s = m._str(L.LLVMPrintValueToString(L.LLVMMetadataAsValue(m.ctx, sc)))
        q = re.search(r'DISubprogram\(name: "([^"]+)".*?line: (\d+)', s)
        if q:
            out.add('%s:%s %s' % (name.split('/repo/')[-1].replace('./', ''), q.group(2), unesc(q.group(1))))
    return sorted(out)


def unesc(s):
    if '\\' not in s:
        return s
    b = re.sub(rb'\\([0-9A-F]{2})', lambda k: bytes([int(k.group(1), 16)]), s.encode())
    return b.decode('utf-8', 'replace')
