#!/usr/bin/env python3-vt
"""check.py Pxx [quick|thorough] [--record]

Decides one property: compiles its contract units (contracts/Pxx*.cc) against /repo's current
headers, proves every obligation with the VC generator (vc/), replays counterexamples natively,
runs the bounded stand-ins, writes evidence/Pxx.json.  Exit 0 / 1 (+ VIOLATION line); anything
else is an error of the check."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
SAN = ['-fsanitize=address,undefined',
       '-fno-sanitize=alignment,pointer-overflow,vptr,nonnull-attribute,function,object-size',
       '-fno-sanitize-recover=all']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=43:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=0:exitcode=43')
JOBS = 8


def native_build(units, d):
    """one executable per unit"""
    inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(HERE, 'vc')]
    base = ['clang++-18', '-std=c++17', '-O1', '-g1', '-DVP_NATIVE', '-Wno-everything', *SAN, *inc]

    def one(job):
        src, out = job
        r = subprocess.run([*base, '-c', src, '-o', out], capture_output=True, text=True)
        return r.stderr if r.returncode else ''
    objs = [(u, os.path.join(d, os.path.basename(u)[:-3] + '.o')) for u in units]
    rt = os.path.join(d, 'rt.o')
    with ThreadPoolExecutor(JOBS) as p:
        errs = list(p.map(one, objs + [(os.path.join(HERE, 'vc', 'vp_native.cc'), rt)]))
    if errs[-1]:
        raise RuntimeError('native runtime does not compile: ' + errs[-1][:2000])
    exes = {}
    bad = {}
    for (u, o), e in zip(objs, errs):
        if e:
            bad[u] = e
            continue
        x = o[:-2]
        r = subprocess.run(['clang++-18', *SAN, o, rt, '-o', x, '-lpthread'], capture_output=True, text=True)
        if r.returncode:
            bad[u] = r.stderr
        else:
            exes[u] = x
    return exes, bad


def run_native(args, timeout, cwd):
    try:
        r = subprocess.run(args, capture_output=True, text=True, errors='replace', timeout=timeout, env=ENV, cwd=cwd)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''


def write_trace(path, name, model, extra=''):
    with open(path, 'w') as f:
        f.write(f"obligation {name}\n")
        for it in model or []:
            if it[0] == 'any':
                f.write(f"any {it[1]} {it[2]}\n")
            elif it[0] == 'mem':
                f.write(f"mem {it[1]} {it[2]} {it[3]}\n")
            else:
                for e in it[2]:
                    if len(e) == 3:
                        f.write(f"uf {it[1]} {e[0]} {e[1]} {e[2]}\n")
                f.write(f"ufelse {it[1]} {it[3]}\n")
        for ln in extra.splitlines():
            f.write(f"# {ln}\n")


CONFIRM = (42, 43, 44, 45, -6, -11, -8, -4, -7, 1, 134, 139)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = next((a for a in sys.argv[2:] if not a.startswith('-')), None) or os.environ.get('VERIF_TIER', 'quick')
    record = '--record' in sys.argv
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vc import engine as E
    units = sorted(glob.glob(os.path.join(HERE, 'contracts', pid + '*.cc')))
    if not units:
        print('no contracts for', pid)
        return 2
    specs = {u: E.load_spec(u) for u in units}
    meta = json.load(open(os.path.join(HERE, 'contracts', 'meta.json'))).get(pid, {})
    quick_native = meta.get('native_s', 10)
    native_s = quick_native if tier == 'quick' else max(120, 8 * quick_native)
    bpath = os.path.join(HERE, 'contracts', 'baseline.json')
    baseline = json.load(open(bpath)) if os.path.exists(bpath) else {}
    base = baseline.get(pid, {})
    kfile = os.path.join(HERE, 'known_findings.jsonl')
    known = []
    if os.path.exists(kfile):
        for ln in open(kfile):
            ln = ln.strip()
            if ln and not ln.startswith('fixed:'):
                k = json.loads(ln)
                if k['property'] == pid:
                    known.append(k)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '-*')):
        os.remove(f)
    d = tempfile.mkdtemp(prefix=f'vp-{pid}-')
    tempfile.tempdir = d
    try:
        return decide(E, pid, tier, record, verbose, seed, units, specs, native_s, base, baseline, bpath, known, rdir, d, t0, meta)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def decide(E, pid, tier, record, verbose, seed, units, specs, native_s, base, baseline, bpath, known, rdir, d, t0, meta):
    say = (lambda *a: print(*a, flush=True)) if verbose else (lambda *a: None)
    # ---------------------------------------------------------------- build
    bcs, irerr = {}, {}

    def irc(u):
        o = os.path.join(d, os.path.basename(u)[:-3] + '.bc')
        try:
            E.compile_ir(u, o, REPO, specs[u].get('defs', ()))
            bcs[u] = o
        except RuntimeError as e:
            irerr[u] = str(e)
    with ThreadPoolExecutor(JOBS) as p:
        fut = p.submit(native_build, units, d)
        list(p.map(irc, units))
        exes, naterr = fut.result()
    for u, e in {**irerr, **naterr}.items():
        print(f"note: {os.path.basename(u)} does not compile against the current tree: {e[:600]}")
    if not bcs and not exes:
        print(f"error: no contract unit of {pid} compiles")
        return 2
    kf_names = {k['obligation'] for k in known}
    natnames = {}
    for u, x in exes.items():
        rc, out, _ = run_native([x, 'list'], 60, d)
        for ln in out.splitlines():
            k, n = ln.split()
            natnames[n] = (u, k)
    say('built', round(time.time() - t0, 1))
    # ---------------------------------------------------------------- proofs
    tp = time.time()
    allob = None
    cap = 3000 if record else meta.get('proof_s', 120) if tier == 'quick' else meta.get('thorough_s', 450)
    # the quick tier leaves the contracts with the longest proofs to the thorough tier (native runs only)
    deferred, times = {}, baseline.get('times', {}).get(pid, {})
    if tier == 'quick' and not record:
        left = meta.get('quick_cpu', 300)
        for n, t in sorted(times.items(), key=lambda x: x[1]):
            left -= t
            if left < 0 or t > meta.get('quick_one', 75):
                deferred[n] = t
        deferred.update({n: 999 for n, v in base.items() if v == 'undecided' and n not in times})
    if tier != 'quick':
        for s in specs.values():
            s['time'] = 4 * s.get('time', 60)
            s['obl_ms'] = 3 * s.get('obl_ms', 20000)
            s['budget'] = {k: 4 * v for k, v in s.get('budget', {}).items()}
    ulist = [(bcs[u], specs[u]) for u in units if u in bcs]
    res = E.verify(ulist, None, jobs=JOBS, total=cap, skip={'ob_' + n for n in deferred}, times=times) if ulist else {}
    res = {n: r for n, r in res.items() if n[3:] not in kf_names and not n[3:].startswith('kf_')}
    proved, failed, undecided = [], {}, {}
    for n, r in sorted(res.items()):
        nm = n[3:]
        bad = [o for o in r['obls'] if o['status'] == 'failed']
        unk = [o for o in r['obls'] if o['status'] == 'unknown']
        sound_bad = [o for o in bad if not o['tainted']]
        uncovered = [c for c, v in r['covers'].items() if not v]
        if sound_bad:
            failed[nm] = sound_bad
        elif r['error'] or unk or bad or r['unwound']:
            undecided[nm] = r['error'] or '; '.join(f"{o['status']}{' (after over-approximated loop)' if o['tainted'] else ''}: {o['label']} in {o['where']}" for o in (unk + bad)[:3]) or 'unwound'
        elif r['ends'] + r['throws'] == 0 or not r['obls'] or uncovered:
            undecided[nm] = f"vacuous: ends={r['ends']} obligations={len(r['obls'])} unreachable={uncovered}"
        else:
            proved.append(nm)
    say('proofs', round(time.time() - tp, 1), 'proved', len(proved), 'failed', sorted(failed), 'undecided', undecided)
    # bounded symbolic stand-in for the undecided ones
    bounded = {}
    K = meta.get('unroll', 3) if tier == 'quick' else meta.get('unroll', 3) + 2
    if undecided and meta.get('bounded', True):
        br = E.verify(ulist, {'ob_' + n for n in undecided}, jobs=JOBS, bounded=K, total=meta.get('bounded_s', 40) * (1 if tier == 'quick' else 2))
        for n, r in br.items():
            nm = n[3:]
            sound_bad = [o for o in r['obls'] if o['status'] == 'failed' and not o['tainted']]
            bounded[nm] = {'bound': f"every loop unrolled at most {K} times", 'discharged': sum(o['status'] == 'discharged' for o in r['obls']),
                           'obligations': len(r['obls']), 'error': r['error'], 'paths': r['paths']}
            if sound_bad:
                failed[nm] = sound_bad
        say('bounded', bounded)
    # ---------------------------------------------------------------- violations from proofs
    violations = []

    def replay(nm, path):
        if nm not in natnames:
            return None, 'obligation has no native form'
        u, _ = natnames[nm]
        rc, out, err = run_native([exes[u], 'replay', path], 90, d)
        return rc in CONFIRM, f"native replay exit={rc}\n{out[-1500:]}\n{err[-2500:]}"

    def search(names, secs, tag, procs):
        """-> list of (name, why, tracefile, output); stats"""
        by = {}
        for n in names:
            if n in natnames:
                by.setdefault(natnames[n][0], []).append(n)
        jobs = []
        w = {u: max(1, round(procs * len(ns) / max(1, sum(len(x) for x in by.values())))) for u, ns in by.items()}
        for u, ns in by.items():
            for k in range(w[u]):
                jobs.append((u, ns, k))
        rounds = max(1, -(-len(jobs) // JOBS))
        each = max(2.0, secs / rounds)
        found, stats = [], {'runs': 0, 'skips': 0, 'distinct': 0, 'samples': [], 'bounded_runs': 0}

        def go(j):
            u, ns, k = j
            hits, so, todo = [], [], list(ns)
            end = time.time() + each
            first = True
            # a contract that fails is dropped from the set and the rest goes on
            while todo and (first or time.time() < end - 0.5) and len(hits) < 3:
                first = False
                tf = os.path.join(d, f"{tag}-{os.path.basename(u)}-{k}-{len(hits)}.trace")
                left = max(1.0, end - time.time())
                rc, out, err = run_native([exes[u], 'search', f'{left:.1f}', str(seed * 131 + k + 7 * len(hits)), '1000000000', tf, *todo], left + 60, d)
                so.append(out)
                if rc == 0:
                    break
                hit = next((ln for ln in out.splitlines() if ln.startswith('FAIL ')), None)
                if hit is None:
                    so.append(f"RUNS-ERROR rc={rc} {err[-300:]}")
                    break
                nm = hit.split()[1]
                hits.append((nm, hit, tf, f"exit={rc}\n{out[-800:]}\n{err[-3000:]}"))
                todo.remove(nm)
            return hits, so
        with ThreadPoolExecutor(JOBS) as p:
            for hits, so in p.map(go, jobs):
                found += hits
                for out in so:
                    for ln in out.splitlines():
                        if ln.startswith('RUNS '):
                            _, _, a, b, c = ln.split()
                            stats['runs'] += int(a)
                            stats['skips'] += int(b)
                            stats['bounded_runs'] += int(a) if c == '1' else 0
                        elif ln.startswith('DISTINCT'):
                            stats['distinct'] += int(ln.split()[1])
                        elif ln.startswith('SAMPLE') and len(stats['samples']) < 12:
                            stats['samples'].append(ln[7:])
                        elif ln.startswith('RUNS-ERROR'):
                            print('note:', ln)
        return found, stats

    def from_native(found):
        for nm, why, tf, outp in found:
            if any(v[0] == nm for v in violations):
                continue
            path = os.path.join(rdir, f"{pid}-{nm}.replay")
            try:
                body = open(tf).read()
            except OSError:
                body = f"obligation {nm}\n"
            with open(path, 'w') as f:
                f.write(body)
                f.write('# found by running the contract natively against the real code\n')
                for ln in outp.splitlines():
                    f.write('# ' + ln + '\n')
            ok, o2 = replay(nm, path)
            if not ok:
                # state left behind by an earlier run; not reproducible in isolation
                print(f"note: native failure of {nm} did not replay in isolation: {why}")
                continue
            violations.append((nm, why, path, True))

    unconfirmed = []
    for nm, bad in failed.items():
        o = bad[0]
        path = os.path.join(rdir, f"{pid}-{nm}.replay")
        vout = '\n'.join(f"{x['status']}: {x['label']} in {x['where']} (kind {x['kind']}, back end {x['backend']}, {x['time']} s)" for x in bad)
        hit = False
        for o in bad:
            if o['model'] is None:
                continue
            write_trace(path, nm, o['model'], vout)
            ok, outp = replay(nm, path)
            if ok:
                write_trace(path, nm, o['model'], vout + '\n' + outp)
                violations.append((nm, f"obligation failed: {o['label']} in {o['where']}", path, True))
                hit = True
                break
        if not hit:
            write_trace(path, nm, bad[0]['model'], vout + '\ncounterexample not reproduced natively')
            unconfirmed.append((nm, bad))
    if unconfirmed:
        found, _ = search([n for n, _ in unconfirmed], 12, 'confirm', JOBS)
        from_native(found)
    # ---------------------------------------------------------------- native exploration
    tn = time.time()
    names = [n for n in natnames if n not in kf_names and not n.startswith('kf_') and not any(v[0] == n for v in violations)]
    found, stats = search(names, native_s, 'search', JOBS)
    from_native(found)
    say('native', round(time.time() - tn, 1), stats)
    for nm, bad in unconfirmed:
        if any(v[0] == nm for v in violations):
            continue
        if base.get(nm) == 'proved' or (base.get(nm) == 'bounded' and nm in bounded):
            path = os.path.join(rdir, f"{pid}-{nm}.replay")
            violations.append((nm, f"obligation failed: {bad[0]['label']} in {bad[0]['where']}", path, False))
        else:
            undecided[nm] = f"failed without a confirmed counterexample: {bad[0]['label']}"
    # ---------------------------------------------------------------- known findings
    for k in known:
        nm = k['obligation']
        if nm not in natnames:
            continue
        fnd, _ = search([nm], 4, 'kf', 2)
        if fnd:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # ---------------------------------------------------------------- evidence
    nobl = sum(len(r['obls']) for n, r in res.items() if n[3:] in proved)
    allobl = sum(len(r['obls']) for r in res.values())
    disc = sum(o['status'] == 'discharged' for r in res.values() for o in r['obls'])
    backends = {}
    fns, stubs, loops, notes = {}, {}, {}, set()
    for r in res.values():
        for o in r['obls']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
        for f, c in r['functions'].items():
            if 'cista::' in f:
                fns[f] = fns.get(f, 0) + c
        for f, c in r['contracts'].items():
            stubs[f] = stubs.get(f, 0) + c
        for k, c in r['loops'].items():
            loops[str(k)] = c
        notes |= set(r['notes'])
    if tier == 'quick' and not record:
        lost = [n for n, v in base.items() if v == 'proved' and n not in proved and n not in deferred and not any(x[0] == n for x in violations)]
        if lost:
            print(f"note: undecided now (proved on the baseline): {lost[:6]}")
    level = meta.get('level', 'proof')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': allobl, 'discharged': disc,
            'checker_cmd': f"python3-vt check.py {pid} {tier}",
            'trusted_base': TRUSTED + meta.get('trusted', []),
            'contracts_left_to_thorough_tier': deferred,
            'contracts_proved': sorted(proved), 'contracts_undecided': undecided, 'contracts_bounded': bounded,
            'back_ends': backends, 'solver_s': round(sum(r['solver_s'] for r in res.values()), 1),
            'functions_under_contract': len(fns), 'functions': sorted(fns)[:400],
            'callee_contracts_used': stubs, 'loops': dict(list(loops.items())[:80]),
            'evaluations': stats['runs'], 'distinct_nontrivial': stats['distinct'],
            'rule': 'native (bounded) runs of the same contracts and of the NATIVE scenarios with seeded biased inputs; a run is non-trivial when no assumption rejected it; distinct by hash of all drawn values',
            'samples': stats['samples'] or ['none'],
            'native_skipped': stats['skips'], 'native_bounded_scenario_runs': stats['bounded_runs'],
            'bounded_scenarios': sorted(n for n, (u, k) in natnames.items() if k == 'bounded' and not n.startswith('kf_')),
            'units_not_compiled': sorted(os.path.basename(u) for u in {**irerr, **naterr}),
        },
        'assumptions': ASSUME + meta.get('assumptions', []) + sorted(notes),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    if record:
        baseline[pid] = {**{n: 'proved' for n in proved}, **{n: ('bounded' if n in bounded and not bounded[n]['error'] else 'undecided') for n in undecided}}
        baseline.setdefault('times', {})[pid] = {n[3:]: round(r['wall'], 1) for n, r in res.items()}
        json.dump(baseline, open(bpath, 'w'), indent=0, sort_keys=True)
    print(f"{pid} {tier}: {len(proved)}/{len(res)} contracts proved ({disc}/{allobl} obligations discharged, {len(fns)} functions), "
          f"{len(undecided)} undecided, {len(deferred)} left to thorough, {stats['runs']} native runs, {len(violations)} violations, {time.time() - t0:.0f}s")
    for n, w in undecided.items():
        print(f"  undecided {n}: {w[:200]} {bounded.get(n, '')}")
    for nm, why, path, conf in violations:
        print(f"  {nm}: {why}")
    # confirmed ones first
    for nm, why, path, conf in sorted(violations, key=lambda v: not v[3])[:5]:
        print(f"VIOLATION property={pid} replay={path}" + ('' if conf else ' no-failing-input-found'))
    if not violations and not proved and not stats['runs']:
        print('error: nothing was decided')
        return 2
    return 1 if violations else 0


TRUSTED = [
    'clang 18 front end and the LLVM normalisation passes sroa, simplifycfg, mem2reg, instsimplify, loop-simplify',
    'vc/ (IR reader, symbolic executor, loop summaries), z3 4.8/new, cvc5 as back ends',
    'models of malloc/free/aligned_alloc/memcpy/memmove/memset/memcmp/strlen and the C++ exception runtime in vc/cfg.py',
]
ASSUME = [
    'addresses of user objects are below 2^47 and allocations succeed',
    'atomics are treated as sequential accesses (single thread)',
    'floating-point arithmetic is uninterpreted',
    'termination is not proved (native runs have a CPU limit)',
    'templates are checked for the instantiations named in the contract units',
    'undefined behaviour is checked for memory access, shifts, signed overflow, division; not for strict aliasing',
]
if __name__ == '__main__':
    sys.exit(main())
