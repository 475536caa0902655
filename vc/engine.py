"""compile a contract unit against /repo's current headers, run every obligation function
through the VC generator (one process each), collect the results"""
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

import z3
from . import ir
from . import sym as S
from . import cfg as C

CLANG = 'clang++-18'


def compile_ir(src, out, repo, defs=(), std='c++17'):
    cmd = [CLANG, f'-std={std}', '-I', os.path.join(repo, 'include'), '-I', os.path.dirname(os.path.abspath(__file__)),
           '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-rtti' if False else '-frtti',
           '-fno-vectorize', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vp_config.h'), '-fno-threadsafe-statics', '-Wno-everything', '-emit-llvm', '-c', src, '-o', out] + list(defs)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError(f"clang failed on {src}:\n{r.stderr[:4000]}")


def run_one(mod, spec, name, bounded=None):
    """-> dict"""
    t0 = time.time()
    lim = S.Limits(bounded=bounded)
    lim.deadline = t0 + spec.get('budget', {}).get(name, spec.get('time', 60))
    lim.obl_ms = spec.get('obl_ms', 20000)
    lim.feas_ms = spec.get('feas_ms', lim.feas_ms)
    if bounded is not None:
        lim.deadline = t0 + spec.get('bounded_time', 30)
    conf = C.Config(mod, spec.get('loops'), spec.get('default_loop', 'inv'), spec.get('contracts'), spec.get('invs'))
    ov = spec.get('override', {}).get(name)
    if ov:
        conf = C.Config(mod, ov.get('loops', spec.get('loops')), ov.get('default_loop', spec.get('default_loop', 'inv')),
                        ov.get('contracts', spec.get('contracts')), ov.get('invs', spec.get('invs')))
    ex = S.Exec(mod, conf, lim)
    err = None
    ends = 0
    throws = 0
    try:
        st = S.State()
        ex.call_fn(st, name, [], None)
        for k, s in ex.explore(st):
            if isinstance(s.nret, str):
                throws += 1
            else:
                ends += 1
    except S.Unsupported as e:
        err = f"unsupported: {e}"
    except S.PathLimit as e:
        err = f"limit: {e}"
    except (NotImplementedError, z3.Z3Exception, RecursionError, AssertionError, AttributeError, TypeError, KeyError,
            IndexError, ValueError) as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        err = f"tool: {type(e).__name__} {e} at {[(f.filename.split('/')[-1], f.lineno) for f in tb[-3:]]}"
    r = {'name': name[3:], 'error': err, 'ends': ends, 'throws': throws, 'paths': ex.paths + 1, 'wall': time.time() - t0,
         'solver_s': ex.qtime, 'queries': ex.nq, 'functions': ex.functions, 'contracts': ex.contracts_used,
         'covers': ex.covers, 'loops': ex.loops_summarised, 'notes': sorted(ex.notes), 'unwound': ex.unwound,
         'obls': [{'label': o.label, 'where': o.where, 'status': o.status, 'time': round(o.time, 3),
                   'backend': o.backend, 'kind': o.kind, 'tainted': o.tainted, 'model': o.model} for o in ex.obls]}
    return r


EMPTY = {'ends': 0, 'throws': 0, 'paths': 0, 'wall': 0, 'solver_s': 0, 'queries': 0, 'functions': {}, 'contracts': {},
         'covers': {}, 'loops': {}, 'notes': [], 'unwound': [], 'obls': []}


def verify(units, names=None, jobs=8, bounded=None, mem_gb=5, kill_extra=15, total=None, skip=(), times=None):
    """units: [(bitcode, spec)]; names: set of ob_ names or None -> {name: result}"""
    mods = [(ir.Module(bc), spec) for bc, spec in units]
    pend = []
    for mod, spec in mods:
        bud = spec.get('budget', {})
        for o in mod.fnptr:
            if o.startswith('ob_') and (names is None or o in names) and o not in skip:
                lim = bud.get(o, spec.get('time', 60)) if bounded is None else spec.get('bounded_time', 30)
                pend.append((o, mod, spec, lim))
    pend.sort(key=lambda x: (-(times or {}).get(x[0][3:], 1e9), -x[3]))
    res = {}
    live = {}
    ctx = mp.get_context('fork')
    tend = time.time() + total if total else None

    def child(mod, spec, name, conn):
        import resource
        os.setpgid(0, 0)
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, 9)  # PR_SET_PDEATHSIG, SIGKILL
        except OSError:
            pass
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        sys.setrecursionlimit(20000)
        try:
            r = run_one(mod, spec, name, bounded)
        except BaseException as e:
            r = dict(EMPTY, name=name[3:], error=f"tool: {type(e).__name__} {e}")
        conn.send(r)
        conn.close()
        os._exit(0)
    while pend or live:
        while pend and len(live) < jobs:
            n, mod, spec, lim = pend.pop(0)
            if tend and time.time() > tend:
                res[n] = dict(EMPTY, name=n[3:], error='limit: time of this run used up')
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(mod, spec, n, b))
            p.start()
            b.close()
            live[n] = (p, a, time.time() + lim + kill_extra)
        for n in list(live):
            p, a, dl = live[n]
            got = False
            if a.poll(0.005):
                try:
                    res[n] = a.recv()
                except EOFError:
                    pass
                got = True
            if got or not p.is_alive() or time.time() > dl or (tend and time.time() > tend + kill_extra):
                if n not in res and a.poll(0.05):
                    try:
                        res[n] = a.recv()
                    except EOFError:
                        pass
                if n not in res:
                    res[n] = dict(EMPTY, name=n[3:], error='tool: worker died or exceeded its time')
                try:
                    os.killpg(p.pid, 9)  # the worker and its solvers
                except OSError:
                    pass
                if p.is_alive():
                    p.kill()
                p.join()
                a.close()
                del live[n]
    return res


def load_spec(src):
    sp = os.path.splitext(src)[0] + '.py'
    if os.path.exists(sp):
        ns = {}
        exec(open(sp).read(), ns)
        return ns['SPEC']
    return {}


if __name__ == '__main__':
    import argparse
    import importlib.util
    import json
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument('src')
    ap.add_argument('names', nargs='*')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--spec')
    ap.add_argument('--bounded', type=int)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-D', action='append', default=[])
    ap.add_argument('--direct', action='store_true')
    a = ap.parse_args()
    with tempfile.TemporaryDirectory() as d:
        bc = os.path.join(d, 'u.bc')
        t = time.time()
        compile_ir(a.src, bc, a.repo, ['-D' + x for x in a.D])
        spec = load_spec(a.src)
        print('compiled', round(time.time() - t, 1))
        if a.direct:
            sys.setrecursionlimit(20000)
            mod = ir.Module(bc)
            res = {n: run_one(mod, spec, 'ob_' + n, a.bounded) for n in a.names}
        else:
            res = verify([(bc, spec)], {'ob_' + n for n in a.names} or None, bounded=a.bounded)
    bad = 0
    for n in sorted(res):
        r = res[n]
        c = {}
        for o in r['obls']:
            c[o['status']] = c.get(o['status'], 0) + 1
        print(f"{r['name']:46s} {c} ends={r['ends']} thr={r['throws']} paths={r['paths']} {r['wall']:.1f}s solver={r['solver_s']:.1f} q={r['queries']} "
              f"{r['error'] or ''} {'UNWOUND' if r['unwound'] else ''}")
        for o in r['obls']:
            if o['status'] != 'discharged':
                print('    ', o['status'], o['label'], '@', o['where'], 'T' if o['tainted'] else '', o['backend'], str(o['model'])[:600])
                bad += 1
                if bad > 40:
                    break
        if a.v:
            print('   loops', r['loops'])
            print('   fns', [f[:90] for f in r['functions']])
            print('   covers', r['covers'], r['notes'], r['unwound'])
