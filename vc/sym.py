"""Verification-condition generator: symbolic execution of normalised LLVM IR with
function contracts, loops cut at their headers and summarised as exact recurrences,
and quantifier-free obligations handed to SMT solvers."""
import re
import time
import z3
from .bv import *
from .mem import *
from .mem import _as_int_hook
from . import ir as IR

USER_TOP = 1 << 47


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'bb', 'prev', 'ip', 'loc', 'ret', 'iters', 'owner', 'allocas')

    def clone(self):
        f = Frame()
        f.fn, f.bb, f.prev, f.ip, f.ret = self.fn, self.bb, self.prev, self.ip, self.ret
        f.loc = dict(self.loc)
        f.iters = dict(self.iters)
        f.allocas = list(self.allocas)
        return f


class Region:
    __slots__ = ('rid', 'kind', 'size', 'live', 'c', 'base', 'ro', 'name', 'align')

    def clone(self):
        r = Region()
        r.rid, r.kind, r.size, r.live, r.c, r.base, r.ro, r.name, r.align = \
            self.rid, self.kind, self.size, self.live, self.c, self.base, self.ro, self.name, self.align
        return r


class State:
    __slots__ = ('frames', 'mem', 'pc', 'model', 'wlog', 'hist', 'pool', 'tainted', 'globals', 'pend', 'inputs',
                 'exc', 'clog', 'ufacts', 'nret', 'fregs', 'depthstop')

    def __init__(self):
        self.frames, self.mem, self.pc = [], {}, []
        self.model = None
        self.wlog = None
        self.hist, self.pool, self.tainted = [], [], False
        self.globals, self.pend, self.inputs = {}, None, []
        self.exc = None
        self.clog = []
        self.fregs = None
        self.nret = None

    def copy(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.wlog = list(self.wlog) if self.wlog is not None else None
        s.hist = list(self.hist)
        s.pool = list(self.pool)
        s.tainted = self.tainted
        s.globals = dict(self.globals)
        s.inputs = list(self.inputs)
        s.exc = self.exc
        s.clog = list(self.clog)
        s.pend = self.pend
        s.fregs = self.fregs
        s.nret = self.nret
        return s


class Stop:
    __slots__ = ('depth', 'header', 'body', 'fn')


class Obl:
    """result of one proof obligation"""
    __slots__ = ('label', 'where', 'status', 'time', 'backend', 'model', 'tainted', 'kind', 'inputs')


class Limits:
    def __init__(self, **k):
        self.feas_ms = 4000
        self.lia_ms = 400
        self.first_ms = 60
        self.obl_ms = 20000
        self.max_paths = 20000
        self.deadline = None
        self.bounded = None      # k => unroll every loop at most k (bounded mode)
        self.__dict__.update(k)


class PathLimit(Exception):
    pass


_mulf = {}


def mulf(w):
    if w not in _mulf:
        s = z3.BitVecSort(w)
        _mulf[w] = z3.Function(f"vpmul{w}", s, s, s)
    return _mulf[w]


def hi_zero(e):
    """the value is below 2^32 by its form"""
    if z3.is_bv_value(e):
        return e.as_long() < 1 << 32
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONCAT:
        a = e.arg(0)
        return z3.is_bv_value(a) and a.as_long() == 0 and a.size() >= 32
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return hi_zero(e.arg(1)) and hi_zero(e.arg(2))
    return False


class Exec:
    def __init__(self, mod, cfg, limits=None):
        self.mod = mod
        self.cfg = cfg            # see contracts.Config
        self.lim = limits or Limits()
        self.uid = 0
        self.obls = []            # Obl list (recorded)
        self.covers = {}
        self.functions = {}       # executed real functions (demangled) -> count
        self.contracts_used = {}
        self.quiet = 0
        self.bases = {}           # base decl name -> rid
        self.paths = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.lim.feas_ms)
        self.lia = None
        self.sstack = []
        self.qtime = 0.0
        self.nq = 0
        self.tinfo = {}
        self.folds = []
        self.pure_depth = 0
        self.uftables = {}
        self.unwound = []
        self.loops_summarised = {}
        self.notes = set()
        self.inst_depth = 0
        self.muls = []
        self.mulax = []
        _as_int_hook[0] = self.addr

    # ---------------------------------------------------------------- utils
    def fresh(self, w, name='t'):
        self.uid += 1
        return z3.BitVec(f"{name}!{self.uid}", w)

    def freshb(self, name='b'):
        self.uid += 1
        return z3.Bool(f"{name}!{self.uid}")

    def freshf(self, w, name='m'):
        self.uid += 1
        return z3.Function(f"{name}!{self.uid}", z3.BitVecSort(64), z3.BitVecSort(w))

    # ---------------------------------------------------------------- solver
    def _sync(self, pc):
        st = self.sstack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def query(self, st, cond, model=False):
        """sat/unsat/unknown of pc & cond with the incremental solver"""
        t = time.time()
        self.nq += 1
        if self.lim.deadline and t > self.lim.deadline:
            raise PathLimit('time budget of this obligation function used up')
        if self.lia is None:
            from . import lia
            self.lia = lia.Lia()
        self.backend = 'z3-incremental'
        self._sync(st.pc)
        self.solver.push()
        self.solver.add(cond, *self.mulax)
        # bit blasting for a short time, integers with wrap-around, bit blasting again
        self.solver.set('timeout', self.lim.first_ms)
        r = self.solver.check()
        if r == z3.unknown:
            if self.lia.unsat(st.pc, [cond] + self.mulax, self.lim.lia_ms):
                self.backend = 'z3-lia'
                r = z3.unsat
            else:
                self.solver.set('timeout', 600)
                r = self.solver.check()
                if r == z3.unknown and self.lia.unsat(st.pc, [cond] + self.mulax, 2000):
                    self.backend = 'z3-lia'
                    r = z3.unsat
                elif r == z3.unknown:
                    self.solver.set('timeout', self.lim.feas_ms)
                    r = self.solver.check()
        if r == z3.sat and model is not None:
            m = self.solver.model()
            self._lastmodel = m
        self.solver.pop()
        self.qtime += time.time() - t
        return r

    def decide(self, st, cond):
        """cond (bool) is valid under pc?"""
        if isinstance(cond, bool):
            return cond
        c = simp(cond)
        if isinstance(c, bool):
            return c
        if st.model is not None:
            e = st.model.eval(c, model_completion=True)
            if z3.is_false(e):
                return False
        return self.query(st, z3.Not(c)) == z3.unsat

    def feasible(self, st, cond):
        if isinstance(cond, bool):
            return cond
        r = self.query(st, cond, model=True)
        if r == z3.sat:
            return self._lastmodel
        if r == z3.unsat:
            return False
        return True  # unknown: keep the path

    # ---------------------------------------------------------------- regions
    def new_region(self, st, kind, size, content=None, name='', align=16, ro=False):
        self.uid += 1
        r = Region()
        r.rid = self.uid
        r.kind, r.size, r.live, r.ro, r.name, r.align = kind, size, True, ro, name, align
        r.base = z3.BitVec(f"base!{r.rid}", 64)
        self.bases[f"base!{r.rid}"] = r.rid
        if content is None:
            content = Layer('uf', None, self.freshf(8, f"uninit{r.rid}"), 1, None)
        r.c = content
        st.mem[r.rid] = r
        sz = tobv(size, 64)
        ax = [z3.UGE(r.base, bv(4096)), z3.ULT(r.base, bv(USER_TOP)), z3.ULE(r.base + sz, bv(USER_TOP))]
        if not isinstance(size, int):
            ax.append(z3.ULT(sz, bv(USER_TOP)))
        if align > 1:
            ax.append(z3.Extract(align.bit_length() - 2, 0, r.base) == 0)
        st.pc.append(z3.And(*ax))
        if st.model is not None:
            if not z3.is_true(st.model.eval(st.pc[-1], model_completion=True)):
                st.model = None
        return r

    def disjoint(self, st, r1, r2):
        a, b = st.mem[r1], st.mem[r2]
        return z3.Or(z3.ULE(a.base + tobv(a.size, 64), b.base), z3.ULE(b.base + tobv(b.size, 64), a.base))

    def addr(self, p):
        if isinstance(p, Ptr):
            if p.r is None:
                return p.off
            b = z3.BitVec(f"base!{p.r}", 64)
            if isinstance(p.off, int):
                return b if p.off == 0 else b + bv(p.off)
            return b + p.off
        if isinstance(p, FnPtr):
            return z3.BitVec(f"fn!{p.name}", 64)
        return p

    def lin(self, e, coef, acc):
        """collect base!k coefficients of a linear sum"""
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            for c in e.children():
                self.lin(c, coef, acc)
        elif k == z3.Z3_OP_BSUB:
            self.lin(e.arg(0), coef, acc)
            for c in e.children()[1:]:
                self.lin(c, -coef, acc)
        elif k == z3.Z3_OP_BNEG:
            self.lin(e.arg(0), -coef, acc)
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            v = e.arg(0).as_long()
            self.lin(e.arg(1), coef * (v if v < 1 << 63 else v - (1 << 64)), acc)
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0 and e.decl().name() in self.bases:
            acc[e.decl().name()] = acc.get(e.decl().name(), 0) + coef

    def to_ptr(self, v):
        """integer address -> Ptr with provenance when syntactically evident"""
        if isinstance(v, (Ptr, FnPtr)):
            return v
        if isinstance(v, int):
            return Ptr(None, v)
        v = simp(v)
        if isinstance(v, int):
            return Ptr(None, v)
        acc = {}
        self.lin(v, 1, acc)
        acc = {k: c for k, c in acc.items() if c != 0}
        if len(acc) == 1:
            (nm, c), = acc.items()
            if c == 1:
                rid = self.bases[nm]
                off = simp(v - z3.BitVec(nm, 64))
                return Ptr(rid, off)
        if v.num_args() == 0 and v.decl().name().startswith('fn!'):
            return FnPtr(v.decl().name()[3:])
        return Ptr(None, v)

    # resolve: returns list of (cond|True, Ptr-with-region) alternatives; may fork
    def resolve(self, st, p, n, what):
        if isinstance(p, FnPtr):
            raise Unsupported("data access through function pointer")
        if p.r is not None:
            return p
        q = self.to_ptr(p.off)
        if q.r is not None:
            return q
        a = q.off
        if isinstance(a, int):
            self.obligation(st, False, f"memsafe:{what}", f"address {a:#x} is not an object", 'mem')
            return None
        # ite of pointers: split (unless already decided on this path)
        ite = a if a.decl().kind() == z3.Z3_OP_ITE else None
        if a.decl().kind() == z3.Z3_OP_BADD:
            ite = next((c for c in a.children() if c.decl().kind() == z3.Z3_OP_ITE), None)
        if ite is not None:
            if self.decide(st, ite.arg(0)):
                pick = ite.arg(1)
            elif self.decide(st, z3.Not(ite.arg(0))):
                pick = ite.arg(2)
            else:
                raise ForkOn(ite.arg(0))
            return self.resolve(st, Ptr(None, simp(z3.substitute(a, (ite, pick)))), n, what)
        # solver based: an address certainly inside one region
        cand = []
        if st.model is None:
            r = self.query(st, z3.BoolVal(True), model=True)
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                st.model = self._lastmodel
        if st.model is not None:
            av = st.model.eval(tobv(a, 64), model_completion=True).as_long()
            for rid, r in st.mem.items():
                if not r.live:
                    continue
                b = st.model.eval(r.base, model_completion=True).as_long()
                s = r.size if isinstance(r.size, int) else st.model.eval(r.size, model_completion=True).as_long()
                if b <= av < b + max(s, 1):
                    cand.append(rid)
        for rid in cand:
            r = st.mem[rid]
            off = simp(a - r.base)
            if self.decide(st, z3.And(z3.ULE(tobv(off, 64), tobv(r.size, 64)))):
                return Ptr(rid, off)
        # not certainly inside a region: that itself is the failed obligation
        regs = [r for r in st.mem.values() if r.live and r.kind != 'global']
        conds = [z3.ULE(tobv(simp(a - r.base), 64), tobv(r.size, 64)) for r in regs]
        self.obligation(st, z3.Or(*conds) if conds else False, f"memsafe:{what}",
                        "address not inside any live object", 'mem')
        for r in regs:
            off = simp(a - r.base)
            c = z3.ULE(tobv(off, 64), tobv(r.size, 64))
            if self.feasible(st, c) is not False:
                if not self.decide(st, c):
                    raise ForkOn(c)
                return Ptr(r.rid, off)
        return None

    def check_access(self, st, p, n, what, write=False):
        """emit the memory-safety obligation; returns resolved Ptr or None (path dies)"""
        p = self.resolve(st, p, n, what)
        if p is None:
            return None
        r = st.mem.get(p.r)
        if r is None:
            raise Unsupported(f"unknown region {p.r}")
        if not r.live:
            self.obligation(st, False, f"memsafe:{what}", f"access to dead object {r.name}", 'mem')
            return None
        if write and r.ro:
            self.obligation(st, False, f"memsafe:{what}", f"write to constant {r.name}", 'mem')
            return None
        if isinstance(p.off, int) and isinstance(r.size, int) and (isinstance(n, int)):
            if p.off + n <= r.size:
                return p
            self.obligation(st, False, f"memsafe:{what}",
                            f"offset {p.off} +{n} outside {r.name or r.kind} of size {r.size}", 'mem')
            return None
        off, sz, nn = tobv(p.off, 64), tobv(r.size, 64), tobv(n, 64)
        ok = z3.And(z3.ULE(nn, sz), z3.ULE(off, sz - nn))
        if not self.obligation(st, ok, f"memsafe:{what}", f"out of bounds of {r.name or r.kind}", 'mem'):
            if self.feasible(st, ok) is False:
                return None
            self.assume(st, ok)
        return p

    def split(self, st, c):
        """truth of c on this path; forks the path when undecided"""
        if isinstance(c, bool):
            return c
        if self.decide(st, c):
            return True
        if self.decide(st, z3.Not(c)):
            return False
        raise ForkOn(c)

    def assume(self, st, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        st.pc.append(c)
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
            st.model = None

    # ---------------------------------------------------------------- obligations
    def where(self, st):
        for f in reversed(st.frames):
            n = f.fn.dname
            if not n.startswith(('vp', 'std::', '__gnu', 'ob_')) and 'cista::' in n:
                return shorten(n)
        return shorten(st.frames[-1].fn.dname) if st.frames else '?'

    def obligation(self, st, cond, label, detail='', kind='assert'):
        """record obligation pc => cond. True when discharged."""
        if self.pure_depth:
            return True if cond is True else self.decide(st, cond)
        c = cond if isinstance(cond, bool) else simp(cond)
        t = time.time()
        be = 'simplifier'
        model = None
        if c is True:
            status = 'discharged'
        else:
            neg = z3.BoolVal(True) if c is False else z3.Not(c)
            r = None
            if c is not False and st.model is not None and z3.is_true(st.model.eval(neg, model_completion=True)):
                r = z3.sat
                model = st.model
            elif self.quiet:
                r = self.query(st, neg)
            else:
                r, be, model = self.prove_neg(st, neg)
            status = 'discharged' if r == z3.unsat else ('failed' if r == z3.sat else 'unknown')
        if self.quiet:
            if status != 'discharged' and c is not False:
                return False
            return status == 'discharged'
        o = Obl()
        o.label, o.where, o.status, o.time, o.backend = label, self.where(st), status, time.time() - t, be
        o.tainted, o.kind = st.tainted, kind
        o.model, o.inputs = None, None
        if status == 'failed':
            o.model = self.concretise(st, z3.BoolVal(True) if c is False else z3.Not(c), model)
            o.label = label + (f" [{detail}]" if detail else '')
        elif status == 'unknown':
            o.label = label + (f" [{detail}]" if detail else '')
        self.obls.append(o)
        if status == 'failed' and self.cfg.stop_on_fail and sum(1 for x in self.obls if x.status == 'failed') >= 3:
            raise PathLimit('three failed obligations')
        return status == 'discharged'

    def prove_neg(self, st, neg):
        t = time.time()
        r = self.query(st, neg, model=True)
        if r == z3.unsat:
            return r, self.backend, None
        if r == z3.sat and self.muls:
            return self.real_mul(st, neg)
        if r == z3.sat:
            return r, 'z3-incremental', self._lastmodel
        tl = time.time()
        ok = self.lia.unsat(st.pc, [neg] + self.mulax, 4000)
        self.qtime += time.time() - tl
        if ok:
            return z3.unsat, 'z3-lia', None
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver() if False else z3.SolverFor('QF_UFBV')
        s.set('timeout', self.lim.obl_ms)
        s.add(*st.pc)
        s.add(neg, *self.mulax)
        r = s.check()
        if r == z3.sat and self.muls:
            return self.real_mul(st, neg)
        if r != z3.unknown:
            return r, 'z3-qfufbv', (s.model() if r == z3.sat else None)
        from . import portfolio
        r2, be = portfolio.run(s.to_smt2(), self.lim.obl_ms / 1000.0)
        if r2 == 'sat' and self.muls:
            return self.real_mul(st, neg)
        self.qtime += time.time() - t
        if r2 == 'unsat':
            return z3.unsat, be, None
        if r2 == 'sat':
            return z3.sat, be, None
        return z3.unknown, 'none', None

    def real_mul(self, st, neg):
        """the product was abstracted by a function with axioms; decide with the real product"""
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', min(self.lim.obl_ms, 8000))
        s.add(*[self.unabstract(c) for c in st.pc])
        s.add(self.unabstract(neg))
        r = s.check()
        if r == z3.unsat:
            return r, 'z3-qfufbv', None
        if r == z3.sat:
            return r, 'z3-qfufbv', s.model()
        return z3.unknown, 'none', None

    def unabstract(self, c):
        if not self.muls:
            return c
        ws = {t[0] for t in self.muls}
        return z3.substitute_funs(c, *[(mulf(w), z3.Var(0, z3.BitVecSort(w)) * z3.Var(1, z3.BitVecSort(w))) for w in ws])

    def mul(self, a, b, w):
        """product of two unknowns: an uninterpreted function of the 64-bit extended factors,
        with true facts about products of values below 2^32 that share a factor"""
        W = 64 if w <= 64 else w
        x, y = (a, b) if w == W else (z3.ZeroExt(W - w, a), z3.ZeroExt(W - w, b))
        x, y = z3.simplify(x), z3.simplify(y)
        if x.get_id() > y.get_id():
            x, y = y, x
        t = mulf(W)(x, y)
        if not any(z3.eq(t, m[1]) for m in self.muls):
            zero, one = bv(0, W), bv(1, W)
            ax = [z3.Implies(x == zero, t == zero), z3.Implies(y == zero, t == zero),
                  z3.Implies(x == one, t == y), z3.Implies(y == one, t == x)]
            small = W == 64 and hi_zero(x) and hi_zero(y)
            if small:
                ax += [z3.ULE(t, bv(0xFFFFFFFE00000001)), z3.Implies(x != 0, z3.UGE(t, y)), z3.Implies(y != 0, z3.UGE(t, x))]
            for (W2, t2, x2, y2, sm2) in self.muls[-16:]:
                if W2 != W:
                    continue
                for (p, c), (q, d) in (((x, y), (x2, y2)), ((x, y), (y2, x2)), ((y, x), (x2, y2)), ((y, x), (y2, x2))):
                    same = c == d
                    ax.append(z3.Implies(z3.And(same, p == q), t == t2))
                    ax.append(z3.Implies(z3.And(same, p + one == q), t + c == t2))
                    ax.append(z3.Implies(z3.And(same, q + one == p), t2 + c == t))
                    if small and sm2:
                        ax.append(z3.Implies(z3.And(same, z3.ULT(p, q)), z3.And(z3.ULE(t + c, t2), z3.UGE(t + c, t))))
                        ax.append(z3.Implies(z3.And(same, z3.ULT(q, p)), z3.And(z3.ULE(t2 + c, t), z3.UGE(t2 + c, t2))))
            self.muls.append((W, t, x, y, small))
            self.mulax += [z3.simplify(z) for z in ax]
        return t if w == W else fold(z3.simplify(z3.Extract(w - 1, 0, t)))

    def concretise(self, st, neg, model):
        """pick a small model and evaluate the recorded inputs"""
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', 8000)
        s.add(*[self.unabstract(c) for c in st.pc])
        s.add(self.unabstract(neg))
        best = model
        prefs = []
        for inp in st.inputs:
            if inp[0] == 'mem':
                sz = inp[3]
                if not isinstance(sz, int):
                    prefs += [z3.ULE(sz, bv(b)) for b in (1 << 20, 4096, 256, 64, 16)]
            elif inp[0] == 'any' and not isinstance(inp[2], (int, bool)) and z3.is_bv(inp[2]):
                w = inp[2].size()
                prefs += [z3.ULE(inp[2], bv(b, w)) for b in (4096, 64) if b < 1 << w]
        t0 = time.time()
        if s.check() == z3.sat:
            best = s.model()
            for p in prefs:
                if time.time() - t0 > 10:
                    break
                if z3.is_true(best.eval(p, model_completion=True)):
                    s.add(p)
                    continue
                s.push()
                s.add(p)
                if s.check() == z3.sat:
                    best = s.model()
                else:
                    s.pop()
        if best is None:
            return None
        return self.dump_inputs(st, best)

    def dump_inputs(self, st, m):
        out = []

        def ev(x):
            if isinstance(x, (int, bool)):
                return int(x)
            e = m.eval(x, model_completion=True)
            if z3.is_bool(e):
                return 1 if z3.is_true(e) else 0
            return e.as_long()
        for inp in st.inputs:
            if inp[0] == 'any':
                out.append(('any', inp[1], ev(inp[2])))
            elif inp[0] == 'mem':
                _, name, rid, size, content = inp
                n = ev(size)
                rd = Reader()
                data = []
                for i in range(min(n, 4096)):
                    data.append(ev(as_int(rd.rd(content, i, 1), 8)))
                out.append(('mem', name, n, bytes(data).hex()))
            elif inp[0] == 'uf':
                f = inp[2]
                ent = []
                fi = m[f.decl() if hasattr(f, 'decl') and not isinstance(f, z3.FuncDeclRef) else f]
                if fi is not None and hasattr(fi, 'num_entries'):
                    for q in range(fi.num_entries()):
                        e = fi.entry(q)
                        ent.append([e.arg_value(j).as_long() for j in range(e.num_args())] + [e.value().as_long()])
                    ev_else = fi.else_value()
                    el = ev_else.as_long() if ev_else is not None and z3.is_bv_value(ev_else) else 0
                else:
                    el = 0
                out.append(('uf', inp[1], ent, el))
        return out

    # ---------------------------------------------------------------- memory ops
    def reader(self, st):
        if self.inst_depth:
            return Reader(None, lambda c: self.decide(st, c))
        return Reader(lambda cb, off, v: self.note_read(st, cb, off, v), lambda c: self.decide(st, c))

    def note_read(self, st, cb, off, v):
        key = (id(cb), off if isinstance(off, int) else off.get_id())
        if key in st.clog:
            return
        st.clog.append(key)
        self.inst_depth += 1
        try:
            for c in cb(self, st, off, v):
                if not isinstance(c, bool):
                    self.assume(st, c)
                elif not c:
                    self.assume(st, z3.BoolVal(False))
        finally:
            self.inst_depth -= 1

    def load(self, st, p, n, ty=None):
        r = st.mem[p.r]
        v = self.reader(st).rd(r.c, p.off, n)
        return v

    def loc_width(self, fn, k):
        if not hasattr(fn, 'widths'):
            fn.widths = {i.id: i.ty.bits for b in fn.blocks for i in list(b.phis) + b.insts
                         if i.ty is not None and i.ty.k == 'int'}
            for j, t in enumerate(fn.params):
                if t.k == 'int':
                    fn.widths[~j] = t.bits
        return fn.widths.get(k)

    def mark_write(self, st, rid, off, n):
        if st.wlog is not None:
            st.wlog.append((rid, off, n))

    def store(self, st, p, n, v):
        r = st.mem[p.r].clone()
        r.c = mk_store(r.c, p.off, n, v)
        st.mem[p.r] = r
        self.mark_write(st, p.r, p.off, n)

    def memcpy(self, st, d, s, n, what='memcpy'):
        """d,s Ptr; n int|BV"""
        n = simp(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return True
        if not isinstance(n, int):
            # zero-length copies may use null pointers
            if d.r is None or s.r is None:
                if not self.decide(st, n != 0):
                    if self.decide(st, n == 0):
                        return True
                    raise ForkOn(n == 0)
        d = self.check_access(st, d, n, what + ' dst', True)
        if d is None:
            return False
        s = self.check_access(st, s, n, what + ' src')
        if s is None:
            return False
        src = st.mem[s.r].c
        r = st.mem[d.r].clone()
        if isinstance(n, int) and n <= 256 and isinstance(d.off, int) and isinstance(s.off, int):
            c = r.c
            rd = self.reader(st)
            for (o, m) in cells(src, s.off, n):
                c = mk_store(c, d.off + (o - s.off), m, rd.rd(src, o, m))
            r.c = c
        elif isinstance(n, int) and n in (1, 2, 4, 8):
            v = self.reader(st).rd(src, s.off, n)
            r.c = mk_store(r.c, d.off, n, v)
        else:
            r.c = Layer('copy', r.c, d.off, n, src, s.off)
        st.mem[d.r] = r
        self.mark_write(st, d.r, d.off, n)
        return True

    def memset(self, st, d, b, n):
        n = simp(n) if not isinstance(n, int) else n
        if isinstance(n, int) and n == 0:
            return True
        if not isinstance(n, int) and d.r is None and not self.decide(st, n != 0):
            if self.decide(st, n == 0):
                return True
            raise ForkOn(n == 0)
        d = self.check_access(st, d, n, 'memset', True)
        if d is None:
            return False
        r = st.mem[d.r].clone()
        if isinstance(b, int) and isinstance(n, int) and n <= 64 and isinstance(d.off, int):
            c, o, e = r.c, d.off, d.off + n
            while o < e:
                m = 8
                while m > e - o or o % m:
                    m //= 2
                c = mk_store(c, o, m, rep_byte(b, m))
                o += m
            r.c = c
        else:
            r.c = Layer('fill', r.c, d.off, n, b)
        st.mem[d.r] = r
        self.mark_write(st, d.r, d.off, n)
        return True

    def global_region(self, st, name):
        rid = st.globals.get(name)
        if rid is not None:
            return rid
        rid = self.gl_rid(name)
        ty, init, const = self.mod.global_init(name)
        r = Region()
        r.rid, r.kind, r.size, r.live, r.ro, r.name, r.align = rid, 'global', max(ty.size, 1), True, const, name, 16
        r.base = z3.BitVec(f"base!{rid}", 64)
        d = {}
        if init is not None:
            self.flatten(init, 0, d, st)
            r.c = Layer('dict', Layer('zero', None), d)
        else:
            r.c = Layer('uf', None, z3.Function(f"ext!{name}", z3.BitVecSort(64), z3.BitVecSort(8)), 1, None)
        st.mem[rid] = r
        st.globals[name] = rid
        ax = [z3.UGE(r.base, bv(4096)), z3.ULE(r.base, bv(USER_TOP - r.size)), z3.Extract(3, 0, r.base) == 0]
        self.assume(st, z3.And(*ax))
        return rid

    def gl_rid(self, name):
        if not hasattr(self, '_gr'):
            self._gr = {}
        if name not in self._gr:
            self.uid += 1
            self._gr[name] = self.uid
            self.bases[f"base!{self.uid}"] = self.uid
        return self._gr[name]

    def flatten(self, v, off, d, st):
        t = v.ty
        if v.k in ('zero', 'undef'):
            return
        if v.k == 'agg':
            for i, e in enumerate(v.v):
                if t.k == 'struct':
                    self.flatten(e, off + t.elts[i][0], d, st)
                else:
                    self.flatten(e, off + i * t.elts.size, d, st)
            return
        if v.k == 'int':
            d[off] = (t.size, v.v)
            return
        if v.k == 'null':
            d[off] = (8, 0)
            return
        if v.k == 'fn':
            d[off] = (8, FnPtr(v.v))
            return
        if v.k == 'global':
            d[off] = (8, Ptr(self.gl_rid(v.v), 0))
            return
        if v.k == 'fp':
            d[off] = (t.size, fpbits(v.v, t.bits))
            return
        if v.k == 'expr':
            d[off] = (t.size, self.constexpr(st, v.x if v.x is not None else v.v, lazy=True))
            return
        raise Unsupported(f"global init {v.k}")

    def constexpr(self, st, i, lazy=False):
        op = i.op

        def val(o):
            if o.k == 'global' and lazy:
                return Ptr(self.gl_rid(o.v), 0)
            return self.val(st, None, o)
        if op == 'gep':
            return self.do_gep(i, [val(o) for o in i.ops])
        if op in ('bitcast', 'addrspacecast'):
            return val(i.ops[0])
        if op == 'ptrtoint':
            return self.ptrtoint(val(i.ops[0]), i.ty.bits)
        if op == 'inttoptr':
            return self.to_ptr(val(i.ops[0]))
        if op in BIN:
            return self.binop(op, val(i.ops[0]), val(i.ops[1]), i.ty.bits)
        raise Unsupported(f"constexpr {op}")

    # ---------------------------------------------------------------- values
    def val(self, st, fr, o):
        k = o.k
        if k == 'inst':
            return fr.loc[o.v]
        if k == 'int':
            if o.ty.bits == 1:
                return bool(o.v)
            return o.v
        if k == 'arg':
            return fr.loc[~o.v]
        if k == 'null':
            return Ptr(None, 0) if o.ty.k == 'ptr' else 0
        if k == 'undef':
            return self.undef(o.ty)
        if k == 'global':
            return Ptr(self.global_region(st, o.v), 0)
        if k == 'fn':
            return FnPtr(o.v)
        if k == 'expr':
            return self.constexpr(st, o.v)
        if k == 'zero':
            return self.zero(o.ty)
        if k == 'agg':
            return [self.val(st, fr, e) for e in o.v]
        if k == 'fp':
            return fpbits(o.v, o.ty.bits)
        raise Unsupported(f"operand {k}")

    def undef(self, t):
        if t.k == 'ptr':
            return Ptr(None, self.fresh(64, 'undef'))
        if t.k in ('int', 'fp'):
            return self.freshb('undef') if t.bits == 1 else self.fresh(t.bits, 'undef')
        if t.k == 'struct':
            return [self.undef(e) for _, e in t.elts]
        if t.k in ('array', 'vector'):
            return [self.undef(t.elts) for _ in range(t.n)]
        raise Unsupported(f"undef {t}")

    def zero(self, t):
        if t.k == 'ptr':
            return Ptr(None, 0)
        if t.k in ('int', 'fp'):
            return False if t.bits == 1 else 0
        if t.k == 'struct':
            return [self.zero(e) for _, e in t.elts]
        return [self.zero(t.elts) for _ in range(t.n)]

    def ptrtoint(self, p, w):
        a = self.addr(p)
        if w == 64:
            return a
        if isinstance(a, int):
            return a & ((1 << w) - 1)
        return z3.Extract(w - 1, 0, a) if w < 64 else z3.ZeroExt(w - 64, a)

    def binop(self, op, a, b, w):
        if w == 1:
            if op == 'and':
                return a and b if isinstance(a, bool) and isinstance(b, bool) else simp(z3.And(a, b))
            if op == 'or':
                return a or b if isinstance(a, bool) and isinstance(b, bool) else simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                return simp(z3.Xor(tob(a), tob(b)))
            raise Unsupported(f"i1 {op}")
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return pybin(op, a, b, w) & M
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('mul', 'and'):
                return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'shl' and b < w:
                op, b = 'mul', 1 << b      # keeps address terms linear
            elif op == 'udiv' and is_pow2(b):
                op, b = 'lshr', b.bit_length() - 1
            elif op == 'urem' and is_pow2(b):
                op, b = 'and', b - 1
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'):
                return b
            if a == 0 and op in ('mul', 'and'):
                return 0
        x, y = tobv(a, w), tobv(b, w)
        if op == 'mul' and not isinstance(a, int) and not isinstance(b, int):
            return self.mul(x, y, w)
        return fold(BIN[op](x, y))

    def icmp(self, st, pred, a, b, w):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            a, b = (x if isinstance(x, (Ptr, FnPtr)) else self.to_ptr(x) for x in (a, b))
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                    e = a.name == b.name
                    return e if pred == 'eq' else (not e)
                if isinstance(a, Ptr) and a.r is None and a.off == 0 or isinstance(b, Ptr) and b.r is None and b.off == 0:
                    return pred == 'ne'
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is None and not isinstance(a.off, int):
                    a = self.to_ptr(a.off)
                if b.r is None and not isinstance(b.off, int):
                    b = self.to_ptr(b.off)
                if a.r is not None and a.r == b.r:
                    return self.icmp(st, pred, a.off, b.off, 64) if pred in ('eq', 'ne') else \
                        self._cmp_same(st, pred, a, b)
                if a.r is not None and b.r is not None:
                    if a.r in st.mem and b.r in st.mem:
                        self.assume(st, self.disjoint(st, a.r, b.r))
                else:
                    p, q = (a, b) if a.r is not None else (b, a)
                    if p.r is not None and q.off == 0 and isinstance(q.off, int) and p.r in st.mem:
                        r = st.mem[p.r]
                        if (isinstance(p.off, int) and isinstance(r.size, int) and p.off <= r.size) or \
                                (isinstance(p.off, int) and p.off == 0):
                            if pred == 'eq':
                                return False
                            if pred == 'ne':
                                return True
            a, b, w = self.addr(a), self.addr(b), 64
        if w == 1:
            a, b = tob(a), tob(b)
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            return simp(CMP[pred](tobv(a, 1), tobv(b, 1)))
        if isinstance(a, int) and isinstance(b, int):
            return pycmp(pred, a, b, w)
        return simp(CMP[pred](tobv(a, w), tobv(b, w)))

    def _cmp_same(self, st, pred, a, b):
        # ordering inside one object: offsets order = address order (no wrap: object below 2^47)
        return self.icmp(st, pred, self.addr(a), self.addr(b), 64) if not (
            isinstance(a.off, int) and isinstance(b.off, int)) else pycmp(pred, a.off, b.off, 64)

    def do_gep(self, i, ops):
        base = ops[0]
        if not isinstance(base, (Ptr, FnPtr)):
            base = self.to_ptr(base)
        off, var, _ = i.x
        cur = off & M64
        for oi, sc in var:
            x = ops[oi]
            w = i.ops[oi].ty.bits
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                if x >= 1 << (w - 1):
                    x -= 1 << w
                cur = add(cur, (x * sc) & M64)
            else:
                if w < 64:
                    x = z3.SignExt(64 - w, x)
                elif w > 64:
                    x = z3.Extract(63, 0, x)
                if isinstance(x, int):
                    t = (x * sc) & M64
                elif sc == 1:
                    t = x
                else:
                    t = x * bv(sc)
                cur = add(cur, t)
        if isinstance(base, FnPtr):
            if cur == 0:
                return base
            return Ptr(None, add(self.addr(base), cur))
        return Ptr(base.r, add(base.off, cur))

    # ---------------------------------------------------------------- execution
    def call_fn(self, st, name, args, ret):
        """push a frame"""
        fn = self.mod.function(name)
        if fn.decl:
            raise Unsupported(f"external function {fn.dname}")
        f = Frame()
        f.fn, f.bb, f.prev, f.ip, f.ret = fn, 0, None, 0, ret
        f.loc = {~i: a for i, a in enumerate(args)}
        f.iters = {}
        f.allocas = []
        if len(st.frames) > 120:
            raise Unsupported("recursion deeper than 120")
        st.frames.append(f)
        if not self.quiet and not self.pure_depth:
            self.functions[fn.dname] = self.functions.get(fn.dname, 0) + 1

    def explore(self, st, stop=None):
        """run until every path ended; returns [(kind,state)] for stop events/finished paths"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            try:
                self.run(s, stop, work, out)
            except Infeasible:
                pass
            if self.lim.deadline and time.time() > self.lim.deadline:
                raise PathLimit('time budget of this obligation function used up')
        return out

    def fork(self, st, cond, work, stop=None):
        """re-execute current instruction under cond and under !cond"""
        a = st.copy()
        b = st.copy()
        fa = self.feasible(st, cond)
        fb = self.feasible(st, z3.Not(cond))
        if fb is not False:
            b.pc.append(z3.Not(cond))
            b.model = fb if fb is not True else None
            work.append(b)
        if fa is not False:
            a.pc.append(cond)
            a.model = fa if fa is not True else None
            work.append(a)

    def run(self, st, stop, work, out):
        steps = 0
        while True:
            if st.pend is not None:
                frm, to = st.pend
                st.pend = None
                r = self.goto(st, frm, to, stop, work, out)
                if r is False:
                    return
                continue
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.bb].insts[fr.ip]
            steps += 1
            try:
                h = HANDLERS.get(inst.op)
                if h is None:
                    raise Unsupported(f"instruction {inst.op}")
                r = h(self, st, fr, inst, stop, work, out)
            except ForkOn as f:
                self.paths += 1
                if self.paths > self.lim.max_paths:
                    raise PathLimit('too many paths')
                self.fork(st, f.cond, work)
                return
            if r is False:
                return

    def goto(self, st, frm, to, stop, work, out):
        fr = st.frames[-1]
        fn = fr.fn
        if stop is not None and len(st.frames) == stop.depth and fn is stop.fn:
            if to == stop.header and frm in stop.body:
                st.pend = (frm, to)
                out.append(('back', st))
                return False
            if to not in stop.body:
                st.pend = (frm, to)
                out.append(('exit', st))
                return False
        if to in fn.loops:
            body = fn.loops[to]
            back = frm in body
            if not back:
                pol = self.cfg.loop_policy(fn, to)
                if pol == 'inv':
                    from . import loops
                    res = loops.concrete_trip(self, st, frm, to)
                    if res is None:
                        if self.lim.bounded is not None:
                            res = loops.bounded_unroll(self, st, frm, to, self.lim.bounded)
                        else:
                            res = loops.summarize(self, st, frm, to)
                    for s in res:
                        if s.frames:
                            work.append(s)
                        else:
                            out.append(('end', s))
                    return False
                fr.iters[to] = 0
            else:
                pol = self.cfg.loop_policy(fn, to)
                fr.iters[to] = fr.iters.get(to, 0) + 1
                if pol != 'inv' and fr.iters[to] > pol:
                    if self.lim.bounded is not None:
                        self.unwound.append((shorten(fn.dname), pol))
                        return False
                    if self.query(st, z3.BoolVal(True)) != z3.unsat:
                        self.unwound.append((shorten(fn.dname), pol))
                        if not self.quiet:
                            o = Obl()
                            o.label, o.where, o.status, o.time, o.backend = \
                                f"unwind<= {pol}", shorten(fn.dname), 'unknown', 0, 'none'
                            o.tainted, o.kind, o.model, o.inputs = st.tainted, 'unwind', None, None
                            self.obls.append(o)
                    return False
        self.enter(st, fr, frm, to)
        return True

    def enter(self, st, fr, frm, to):
        blk = fr.fn.blocks[to]
        if blk.phis:
            vals = [self.val(st, fr, p.x[frm]) for p in blk.phis]
            for p, v in zip(blk.phis, vals):
                fr.loc[p.id] = v
        fr.prev, fr.bb, fr.ip = frm, to, 0

    # ---------------------------------------------------------------- calls
    def do_ret(self, st, rv, stop, out):
        fr = st.frames.pop()
        for rid in fr.allocas:
            r = st.mem[rid].clone()
            r.live = False
            st.mem[rid] = r
        if stop is not None and len(st.frames) < stop.depth and fr.fn is stop.fn:
            self._deliver(st, fr, rv)
            out.append(('exit', st))
            return False
        if fr.ret is None or not st.frames:
            st.nret = rv
            out.append(('end', st))
            return False
        self._deliver(st, fr, rv)
        return True

    def _deliver(self, st, fr, rv):
        if not st.frames or fr.ret is None:
            st.nret = rv
            return
        top = st.frames[-1]
        kind, iid, nd, ud = fr.ret
        if iid is not None:
            top.loc[iid] = rv
        if kind == 'invoke':
            st.pend = (top.bb, nd)
        else:
            top.ip += 1

    def unwind(self, st, exc, stop, out):
        """exc = (object Ptr, typeinfo name). Pops frames to the next invoke"""
        st.exc = exc
        fr0 = st.frames[-1]
        # the current frame's current instruction threw
        while st.frames:
            fr = st.frames[-1]
            inst = fr.fn.blocks[fr.bb].insts[fr.ip]
            if inst.op == 'invoke':
                _, nd, ud = inst.x
                st.pend = (fr.bb, ud)
                return True
            for rid in fr.allocas:
                r = st.mem[rid].clone()
                r.live = False
                st.mem[rid] = r
            st.frames.pop()
            if stop is not None and len(st.frames) < stop.depth and fr.fn is stop.fn:
                # leave the loop by exception: let the caller continue unwinding
                if not st.frames:
                    out.append(('end', st))
                    return False
                inst = st.frames[-1].fn.blocks[st.frames[-1].bb].insts[st.frames[-1].ip]
                if inst.op == 'invoke':
                    st.pend = (st.frames[-1].bb, inst.x[2])
                    out.append(('exit', st))
                    return False
                ok = self.unwind(st, exc, None, out)
                if ok:
                    out.append(('exit', st))
                return False
        st.nret = 'throw'
        out.append(('end', st))
        return False

    def pure(self, st, name, args):
        """evaluate a side-effect free (spec) function to one merged value"""
        s = st.copy()
        s.wlog = None
        base = len(s.pc)
        dep = len(s.frames)
        dummy = Frame()
        self.pure_depth += 1
        try:
            s.frames = []
            self.call_fn(s, name, args, None)
            res = self.explore(s)
        finally:
            self.pure_depth -= 1
        vals = []
        for k, e in res:
            if isinstance(e.nret, str):
                continue
            vals.append((z3.And(*e.pc[base:]) if len(e.pc) > base else True, e.nret))
        if not vals:
            return None
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if c is True:
                r = v
            elif isinstance(v, (bool,)) or (not isinstance(v, int) and z3.is_bool(v)):
                r = simp(z3.If(c, tob(v), tob(r)))
            else:
                w = v.size() if not isinstance(v, int) else (r.size() if not isinstance(r, int) else 64)
                r = simp(z3.If(c, tobv(v, w), tobv(r, w)))
        return r


class Infeasible(Exception):
    pass


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


def tob(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if z3.is_bv(v):
        return v == 1
    return v


def fpbits(x, bits):
    import struct
    return int.from_bytes(struct.pack('<d' if bits == 64 else '<f', x), 'little')


def shorten(n, k=150):
    n = re.sub(r'\(.*$', '', n) if len(n) > k else n
    return n[:k]


BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'udiv': z3.UDiv,
       'sdiv': lambda a, b: a / b, 'urem': z3.URem, 'srem': z3.SRem, 'shl': lambda a, b: a << b, 'lshr': z3.LShR,
       'ashr': lambda a, b: a >> b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


def sgn(a, w):
    return a - (1 << w) if a >= 1 << (w - 1) else a


def pybin(op, a, b, w):
    if op == 'add':
        return a + b
    if op == 'sub':
        return a - b
    if op == 'mul':
        return a * b
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return a << b if b < w else 0
    if op == 'lshr':
        return a >> b if b < w else 0
    if op == 'ashr':
        return sgn(a, w) >> min(b, w - 1)
    if b == 0:
        return 0
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
    return q if op == 'sdiv' else x - q * y


def pycmp(p, a, b, w):
    if p == 'eq':
        return a == b
    if p == 'ne':
        return a != b
    if p[0] == 's':
        a, b = sgn(a, w), sgn(b, w)
    return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]]


# -------------------------------------------------------------------- handlers
def nxt(fr):
    fr.ip += 1
    return True


def h_bin(ex, st, fr, i, stop, work, out):
    w = i.ty.bits
    if i.ty.k == 'vector':
        raise Unsupported('vector arithmetic')
    a, b = ex.val(st, fr, i.ops[0]), ex.val(st, fr, i.ops[1])
    op = i.op
    if isinstance(a, Ptr):
        a = ex.addr(a)
    if isinstance(b, Ptr):
        b = ex.addr(b)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        nz = b != 0 if isinstance(b, int) else (b != bv(0, w))
        if not ex.obligation(st, nz, 'ub:division by zero', '', 'ub'):
            if ex.feasible(st, nz) is False or nz is False:
                return False
            ex.assume(st, nz)
    if op in ('shl', 'lshr', 'ashr'):
        ok = b < w if isinstance(b, int) else z3.ULT(b, bv(w, w))
        # too large an amount yields poison (LLVM semantics; such an instruction may have been
        # speculated): an arbitrary value, so whatever depends on it cannot be proved
        if not ex.decide(st, ok):
            r = ex.fresh(w, 'poison')
            if ok is not False:
                r = z3.If(ok, ex.binop(op, a, b, w), r)
            fr.loc[i.id] = r
            return nxt(fr)
    if op in ('add', 'sub', 'mul') and w > 1 and i.x and i.x[0]:
        ok = nsw_ok(op, a, b, w)
        if ok is not True and not ex.obligation(st, ok, 'ub:signed overflow', '', 'ub'):
            if ok is False or ex.feasible(st, ok) is False:
                return False
            ex.assume(st, ok)
    if op == 'sdiv' and w == 64 and isinstance(b, int) and 1 < b < 1 << 40 and not isinstance(a, int):
        a = simp(a)
        q = exact_sdiv(a, b) if not isinstance(a, int) else None
        if q is not None and (q[1] is True or ex.decide(st, q[1])):
            fr.loc[i.id] = simp(q[0])
            return nxt(fr)
    fr.loc[i.id] = ex.binop(op, a, b, w)
    return nxt(fr)


def nsw_ok(op, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        r = pybin(op, sgn(a, w), sgn(b, w), w)
        return -(1 << (w - 1)) <= r < 1 << (w - 1)
    x, y = tobv(a, w), tobv(b, w)
    if op == 'add':
        return simp(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
    if op == 'sub':
        return simp(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
    return simp(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))


def h_icmp(ex, st, fr, i, stop, work, out):
    a, b = ex.val(st, fr, i.ops[0]), ex.val(st, fr, i.ops[1])
    fr.loc[i.id] = ex.icmp(st, i.x, a, b, i.ops[0].ty.bits)
    return nxt(fr)


def fpkey(x, w):
    """IEEE bits -> (signed integer in the same order, is it a NaN); both zeros are 0"""
    e = 11 if w == 64 else 8
    mag = x & ((1 << (w - 1)) - 1)
    return z3.If(x < 0, -mag, mag), z3.UGT(mag, ((1 << e) - 1) << (w - 1 - e))


def h_fcmp(ex, st, fr, i, stop, work, out):
    a, b = ex.val(st, fr, i.ops[0]), ex.val(st, fr, i.ops[1])
    w = i.ops[0].ty.bits
    (x, nx), (y, ny) = fpkey(tobv(a, w), w), fpkey(tobv(b, w), w)
    un = z3.Or(nx, ny)
    p = i.x
    eq, gt, ge, lt, le = x == y, x > y, x >= y, x < y, x <= y
    rel = {1: eq, 2: gt, 3: ge, 4: lt, 5: le, 6: x != y, 9: eq, 10: gt, 11: ge, 12: lt, 13: le, 14: x != y}
    if p in (0, 15):
        base = z3.BoolVal(p == 15)
    elif p in (7, 8):
        base = z3.Not(un) if p == 7 else un
    else:
        base = z3.And(z3.Not(un), rel[p]) if p < 7 else z3.Or(un, rel[p])
    fr.loc[i.id] = simp(base)
    return nxt(fr)


def h_fop(ex, st, fr, i, stop, work, out):
    """floating point arithmetic is uninterpreted (deterministic)"""
    w = i.ty.bits
    ops = [tobv(ex.val(st, fr, o), o.ty.bits) for o in i.ops]
    f = z3.Function(f"fp_{i.op}_{w}", *[o.sort() for o in ops], z3.BitVecSort(w))
    fr.loc[i.id] = f(*ops)
    ex.notes.add('floating-point arithmetic uninterpreted')
    return nxt(fr)


def h_cast(ex, st, fr, i, stop, work, out):
    v = ex.val(st, fr, i.ops[0])
    w, w0 = i.ty.bits, i.ops[0].ty.bits
    op = i.op
    if op == 'ptrtoint':
        r = ex.ptrtoint(v, w)
    elif op == 'inttoptr':
        r = ex.to_ptr(v)
    elif op in ('bitcast', 'freeze', 'addrspacecast'):
        r = v
        if i.ty.k == 'vector' or i.ops[0].ty.k == 'vector':
            raise Unsupported('vector bitcast')
    elif op == 'trunc':
        if isinstance(v, int):
            r = v & ((1 << w) - 1)
            if w == 1:
                r = bool(r)
        else:
            r = z3.Extract(w - 1, 0, v)
            r = simp(r == 1) if w == 1 else r
    elif op == 'zext':
        if isinstance(v, (int, bool)):
            r = int(v)
        elif w0 == 1:
            r = z3.If(v, bv(1, w), bv(0, w))
        else:
            r = z3.ZeroExt(w - w0, v)
    elif op == 'sext':
        if isinstance(v, bool):
            r = (1 << w) - 1 if v else 0
        elif isinstance(v, int):
            r = sgn(v, w0) & ((1 << w) - 1)
        elif w0 == 1:
            r = z3.If(v, bv((1 << w) - 1, w), bv(0, w))
        else:
            r = z3.SignExt(w - w0, v)
    else:
        return h_fop(ex, st, fr, i, stop, work, out)
    fr.loc[i.id] = r
    return nxt(fr)


def h_select(ex, st, fr, i, stop, work, out):
    c, a, b = (ex.val(st, fr, o) for o in i.ops)
    if isinstance(c, bool):
        r = a if c else b
    elif isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            r = Ptr(a.r, simp(z3.If(c, tobv(a.off, 64), tobv(b.off, 64))))
        else:
            r = a if ex.split(st, c) else b
    elif isinstance(a, list):
        r = a if ex.split(st, c) else b
    elif i.ty.bits == 1:
        r = simp(z3.If(c, tob(a), tob(b)))
    else:
        r = fold(z3.If(c, tobv(a, i.ty.bits), tobv(b, i.ty.bits))) if not same(a, b) else a
    fr.loc[i.id] = r
    return nxt(fr)


def h_alloca(ex, st, fr, i, stop, work, out):
    n = ex.val(st, fr, i.ops[0])
    if not isinstance(n, int):
        raise Unsupported('dynamic alloca')
    r = ex.new_region(st, 'stack', i.x.size * n, name=i.name or 'local')
    fr.allocas.append(r.rid)
    fr.loc[i.id] = Ptr(r.rid, 0)
    return nxt(fr)


def wrapload(ex, v, t):
    if t.k == 'ptr':
        return v if isinstance(v, (Ptr, FnPtr)) else ex.to_ptr(v)
    if t.k in ('int', 'fp'):
        if isinstance(v, (Ptr, FnPtr)):
            v = ex.addr(v)
        if t.bits == 1:
            if isinstance(v, int):
                return bool(v & 1)
            if z3.is_bool(v):
                return v
            return simp(z3.Extract(0, 0, v) == 1)
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int) and z3.is_bool(v):
            v = tobv(v, t.bits)
        if t.bits < t.size * 8:
            v = v & ((1 << t.bits) - 1) if isinstance(v, int) else z3.Extract(t.bits - 1, 0, v)
        return fold(v) if not isinstance(v, int) else v
    raise Unsupported(f"load {t}")


def do_load(ex, st, p, t, what='load'):
    if t.k in ('struct', 'array', 'vector'):
        vals = []
        for o, e in (t.elts if t.k == 'struct' else [(j * t.elts.size, t.elts) for j in range(t.n)]):
            v = do_load(ex, st, Ptr(p.r, add(p.off, o)), e, what)
            if v is DEAD:
                return DEAD
            vals.append(v)
        return vals
    q = ex.check_access(st, p, t.size, what)
    if q is None:
        return DEAD
    return wrapload(ex, ex.load(st, q, t.size), t)


DEAD = object()


def h_load(ex, st, fr, i, stop, work, out):
    p = ex.val(st, fr, i.ops[0])
    v = do_load(ex, st, p, i.ty)
    if v is DEAD:
        return False
    fr.loc[i.id] = v
    return nxt(fr)


def do_store(ex, st, p, v, t, what='store'):
    if t.k in ('struct', 'array', 'vector'):
        for j, (o, e) in enumerate(t.elts if t.k == 'struct' else
                                   [(j * t.elts.size, t.elts) for j in range(t.n)]):
            if not do_store(ex, st, Ptr(p.r, add(p.off, o)), v[j], e, what):
                return False
        return True
    q = ex.check_access(st, p, t.size, what, True)
    if q is None:
        return False
    if t.k == 'int' and t.bits < t.size * 8 and not isinstance(v, bool) and not isinstance(v, int):
        v = tobv(v, t.size * 8) if z3.is_bool(v) else z3.ZeroExt(t.size * 8 - t.bits, v)
    if isinstance(v, bool):
        v = int(v)
    ex.store(st, q, t.size, v)
    return True


def h_store(ex, st, fr, i, stop, work, out):
    v = ex.val(st, fr, i.ops[0])
    p = ex.val(st, fr, i.ops[1])
    if not do_store(ex, st, p, v, i.ops[0].ty):
        return False
    return nxt(fr)


def h_gep(ex, st, fr, i, stop, work, out):
    fr.loc[i.id] = ex.do_gep(i, [ex.val(st, fr, o) for o in i.ops])
    return nxt(fr)


def h_br(ex, st, fr, i, stop, work, out):
    if not i.ops:
        return ex.goto(st, fr.bb, i.x[0], stop, work, out)
    c = ex.val(st, fr, i.ops[0])
    t, f = i.x
    # LLVM prints operands false-first for successors? (successor 0 is the true target)
    if isinstance(c, bool):
        return ex.goto(st, fr.bb, t if c else f, stop, work, out)
    if t == f:
        return ex.goto(st, fr.bb, t, stop, work, out)
    mt = mf = None
    if st.model is not None:
        e = st.model.eval(c, model_completion=True)
        if z3.is_true(e):
            mt = st.model
        elif z3.is_false(e):
            mf = st.model
    if mt is None:
        mt = ex.feasible(st, c)
    if mf is None:
        mf = ex.feasible(st, z3.Not(c)) if mt is not False else True
    if mt is False:
        ex.assume(st, z3.Not(c)) if False else None
        return ex.goto(st, fr.bb, f, stop, work, out)
    if mf is False:
        return ex.goto(st, fr.bb, t, stop, work, out)
    ex.paths += 1
    if ex.paths > ex.lim.max_paths:
        raise PathLimit('too many paths')
    o = st.copy()
    o.pc.append(z3.Not(c))
    o.model = mf if mf is not True else None
    o.pend = (fr.bb, f)
    work.append(o)
    st.pc.append(c)
    st.model = mt if mt is not True else None
    return ex.goto(st, fr.bb, t, stop, work, out)


def h_switch(ex, st, fr, i, stop, work, out):
    v = ex.val(st, fr, i.ops[0])
    d, cs = i.x
    w = i.ops[0].ty.bits
    if isinstance(v, (int, bool)):
        for c, t in cs:
            if (c - int(v)) % (1 << w) == 0:
                return ex.goto(st, fr.bb, t, stop, work, out)
        return ex.goto(st, fr.bb, d, stop, work, out)
    conds = []
    for c, t in cs:
        e = v == bv(c, w)
        conds.append(e)
        m = ex.feasible(st, e)
        if m is not False:
            o = st.copy()
            o.pc.append(e)
            o.model = m if m is not True else None
            o.pend = (fr.bb, t)
            work.append(o)
            ex.paths += 1
    e = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
    m = ex.feasible(st, e)
    if m is not False:
        o = st.copy()
        o.pc.append(e)
        o.model = m if m is not True else None
        o.pend = (fr.bb, d)
        work.append(o)
    return False


def h_ret(ex, st, fr, i, stop, work, out):
    rv = ex.val(st, fr, i.ops[0]) if i.ops else None
    return ex.do_ret(st, rv, stop, out)


def h_unreachable(ex, st, fr, i, stop, work, out):
    ex.obligation(st, False, 'ub:unreachable reached', '', 'ub')
    return False


def h_extractvalue(ex, st, fr, i, stop, work, out):
    v = ex.val(st, fr, i.ops[0])
    for x in i.x:
        v = v[x]
    fr.loc[i.id] = v
    return nxt(fr)


def h_insertvalue(ex, st, fr, i, stop, work, out):
    v = ex.val(st, fr, i.ops[0])
    e = ex.val(st, fr, i.ops[1])

    def ins(a, path):
        a = list(a)
        if len(path) == 1:
            a[path[0]] = e
        else:
            a[path[0]] = ins(a[path[0]], path[1:])
        return a
    fr.loc[i.id] = ins(v, i.x)
    return nxt(fr)


def h_landingpad(ex, st, fr, i, stop, work, out):
    obj, ti = st.exc
    sel = 0
    hit = False
    for c in i.ops:
        nm = c.v if c.k in ('global',) else None
        if nm is None or ex.cfg.exc_matches(ex, ti, nm):
            sel = ex.tid(nm)
            hit = True
            break
    if not hit and not i.x:
        # no clause matches and no cleanup: continue unwinding
        return ex.unwind_from_pad(st, stop, out)
    fr.loc[i.id] = [obj, sel]
    return nxt(fr)


def _tid(self, nm):
    return 1 + (sum(ord(ch) * (k + 7) for k, ch in enumerate(nm)) % 100003 if nm else 0)


def _unwind_from_pad(self, st, stop, out):
    fr = st.frames.pop()
    if not st.frames:
        st.nret = 'throw'
        out.append(('end', st))
        return False
    if stop is not None and len(st.frames) < stop.depth and fr.fn is stop.fn:
        raise Unsupported('exception leaves summarised loop')
    return self.unwind(st, st.exc, stop, out)


Exec.tid = _tid
Exec.unwind_from_pad = _unwind_from_pad


def h_resume(ex, st, fr, i, stop, work, out):
    return ex.unwind_from_pad(st, stop, out)


def h_fence(ex, st, fr, i, stop, work, out):
    return nxt(fr)


def h_call(ex, st, fr, i, stop, work, out):
    callee, nd, ud = i.x
    if callee.k == 'asm':
        return nxt(fr)
    if callee.k == 'fn':
        name = callee.v
    else:
        f = ex.val(st, fr, callee)
        if isinstance(f, Ptr):
            f = ex.to_ptr(ex.addr(f))
        if not isinstance(f, FnPtr):
            raise Unsupported('indirect call')
        name = f.name
    args = None
    ret = ('invoke' if i.op == 'invoke' else 'call', i.id if i.ty.k != 'void' else None, nd, ud)
    h = ex.cfg.handler(ex, name)
    if h is not None:
        args = [None if o.k == 'meta' else ex.val(st, fr, o) for o in i.ops]
        r = h(ex, st, args, i)
        if r is DEAD:
            return False
        if isinstance(r, tuple) and r and r[0] == 'throw':
            return ex.unwind(st, r[1], stop, out)
        if isinstance(r, tuple) and r and r[0] == 'tailcall':
            ex.call_fn(st, r[1], r[2], ret)
            return True
        if i.ty.k != 'void':
            fr.loc[i.id] = r
        if i.op == 'invoke':
            return ex.goto(st, fr.bb, nd, stop, work, out)
        return nxt(fr)
    args = [ex.val(st, fr, o) for o in i.ops]
    ex.call_fn(st, name, args, ret)
    return True


def h_atomicrmw(ex, st, fr, i, stop, work, out):
    p = ex.val(st, fr, i.ops[0])
    v = ex.val(st, fr, i.ops[1])
    w = i.ty.bits
    old = do_load(ex, st, p, i.ty, 'atomicrmw')
    if old is DEAD:
        return False
    op = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor'}.get(i.x)
    if op == 'xchg':
        nv = v
    elif op in BIN:
        nv = ex.binop(op, old, v, w)
    else:
        raise Unsupported(f'atomicrmw {i.x}')
    ex.notes.add('atomic read-modify-write treated as sequential')
    do_store(ex, st, p, nv, i.ty, 'atomicrmw')
    fr.loc[i.id] = old
    return nxt(fr)


def h_cmpxchg(ex, st, fr, i, stop, work, out):
    p, c, n = (ex.val(st, fr, o) for o in i.ops[:3])
    t = i.ops[1].ty
    old = do_load(ex, st, p, t, 'cmpxchg')
    if old is DEAD:
        return False
    eq = ex.icmp(st, 'eq', old, c, t.bits)
    if not isinstance(eq, bool):
        raise ForkOn(eq)
    if eq:
        do_store(ex, st, p, n, t, 'cmpxchg')
    ex.notes.add('compare-exchange treated as sequential and strong')
    fr.loc[i.id] = [old, eq]
    return nxt(fr)


HANDLERS = {'icmp': h_icmp, 'fcmp': h_fcmp, 'select': h_select, 'alloca': h_alloca, 'load': h_load, 'store': h_store,
            'gep': h_gep, 'br': h_br, 'switch': h_switch, 'ret': h_ret, 'unreachable': h_unreachable,
            'extractvalue': h_extractvalue, 'insertvalue': h_insertvalue, 'landingpad': h_landingpad,
            'resume': h_resume, 'call': h_call, 'invoke': h_call, 'fence': h_fence, 'atomicrmw': h_atomicrmw,
            'cmpxchg': h_cmpxchg}
for _o in BIN:
    HANDLERS[_o] = h_bin
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast', 'fptrunc', 'fpext',
           'fptoui', 'fptosi', 'uitofp', 'sitofp'):
    HANDLERS[_o] = h_cast
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
    HANDLERS[_o] = h_fop
