"""run an SMT-LIB query on the other installed solvers in parallel"""
import os
import subprocess
import tempfile
import time

SOLVERS = [('cvc5', ['cvc5', '--lang=smt2', '--bv-solver=bitblast']), ('z3-new', ['z3-new', '-smt2'])]


def run(smt2, timeout):
    fd, path = tempfile.mkstemp(suffix='.smt2', prefix='vp_')
    with os.fdopen(fd, 'w') as f:
        f.write('(set-logic QF_UFBV)\n' + smt2)
    ps = []
    try:
        for n, c in SOLVERS:
            lim = [f'--tlimit={int(timeout * 1000) + 500}'] if n == 'cvc5' else [f'-T:{int(timeout) + 1}']
            ps.append((n, subprocess.Popen(c + lim + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout
        live = list(ps)
        while live and time.time() < end:
            for n, p in list(live):
                if p.poll() is not None:
                    live.remove((n, p))
                    o = p.stdout.read().split()
                    if o and o[0] in ('sat', 'unsat'):
                        return o[0], n
            time.sleep(0.02)
        return 'unknown', 'none'
    finally:
        for n, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.unlink(path)
