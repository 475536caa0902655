"""Configuration of one verification unit: loop policies, contracts on callees, models of
external functions (libc, compiler intrinsics, C++ runtime) and the vp_* intrinsics."""
import re
import z3
from .bv import *
from .mem import *
from . import sym as S
from .sym import DEAD, Unsupported, ForkOn, Infeasible, tob


class Config:
    def __init__(self, mod, loops=None, default_loop='inv', contracts=None, invs=None, stop_on_fail=True):
        self.mod = mod
        self.loops = [(re.compile(a), p) for a, p in (loops or [])]
        self.default = default_loop
        self.contracts = [(re.compile(a), b) for a, b in (contracts or [])]
        self.invs = [(re.compile(a), idx, f) for a, idx, f in (invs or [])]
        self.hcache = {}
        self.lcache = {}
        self.stop_on_fail = stop_on_fail

    def loop_policy(self, fn, header):
        k = (fn.name, header)
        if k not in self.lcache:
            p = self.default
            for r, q in self.loops:
                if r.search(fn.dname) or r.search(fn.name):
                    p = q
                    break
            self.lcache[k] = p
        return self.lcache[k]

    def loop_invariants(self, fn, header):
        out = []
        for r, idx, f in self.invs:
            if (r.search(fn.dname)) and (idx is None or fn.loop_order.index(header) == idx):
                out += f
        return out

    def handler(self, ex, name):
        h = self.hcache.get(name, 0)
        if h != 0:
            return h
        h = None
        if name in EXT:
            h = EXT[name]
        elif name.startswith('llvm.'):
            h = intrinsic(name)
        else:
            d = self.mod.demangled.get(name, name)
            for r, stub in self.contracts:
                if r.search(d) and not name.startswith('vpc_'):
                    if callable(stub):
                        h = stub
                    else:
                        def h(ex, st, args, i, stub=stub, d=d):
                            if not ex.quiet:
                                ex.contracts_used[S.shorten(d)] = ex.contracts_used.get(S.shorten(d), 0) + 1
                            # while the stub itself runs, calls go to the real callee
                            return ('tailcall', stub, args)
                    break
            if h is None:
                for r, f in EXTRE:
                    if r.search(d) or r.search(name):
                        h = f
                        break
            if h is None and name not in self.mod.fnptr:
                raise Unsupported(f"unknown function {d}")
        self.hcache[name] = h
        return h

    def exc_matches(self, ex, ti, nm):
        seen = 0
        while ti and seen < 8:
            if ti == nm:
                return True
            if nm in ('_ZTISt9exception', '_ZTISt13runtime_error', '_ZTISt11logic_error') and ti.startswith('_ZTISt'):
                chain = {'_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
                         '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
                         '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
                         '_ZTISt16invalid_argument': '_ZTISt11logic_error'}
                t = ti
                while t:
                    if t == nm:
                        return True
                    t = chain.get(t)
                return False
            if ti not in self.mod.gptr:
                return False
            _, init, _ = self.mod.global_init(ti)
            if init is None or init.k != 'agg' or len(init.v) < 3 or init.v[2].k != 'global':
                return False
            ti = init.v[2].v
            seen += 1
        return False


# ------------------------------------------------------------------ helpers
def cstr(ex, st, p):
    """read a constant C string"""
    p = ex.to_ptr(p)
    out = []
    r = st.mem[p.r]
    o = p.off
    while True:
        v = ex.reader(st).rd(r.c, o, 1)
        if not isinstance(v, int) or v == 0:
            break
        out.append(v)
        o += 1
    return bytes(out).decode()


def I64(v):
    return v


# ------------------------------------------------------------------ vp_* intrinsics
def vp_any(ex, st, a, i):
    bits = a[0]
    name = cstr(ex, st, a[1])
    w = i.ty.bits
    v = ex.fresh(bits, f"in.{name}") if bits > 1 else ex.freshb(f"in.{name}")
    st.inputs.append(('any', name, v))
    if bits == w:
        return v
    return z3.ZeroExt(w - bits, v) if bits > 1 else z3.If(v, bv(1, w), bv(0, w))


def vp_any_mem(ex, st, a, i):
    size, cell, align = S.simp(a[0]) if not isinstance(a[0], int) else a[0], a[1], a[2]
    name = cstr(ex, st, a[3])
    cb = []
    L = Layer('uf', None, ex.freshf(8 * cell, f"mem.{name}"), cell, None)
    r = ex.new_region(st, 'heap', size, L, name, align)
    st.inputs.append(('mem', name, r.rid, size, L))
    return Ptr(r.rid, 0)


def vp_assume(ex, st, a, i):
    c = tob(a[0]) if not isinstance(a[0], bool) else a[0]
    if c is False:
        return DEAD
    if c is True:
        return None
    m = ex.feasible(st, c)
    if m is False:
        return DEAD
    ex.assume(st, c)
    if m is not True:
        st.model = m
    return None


def vp_assert(ex, st, a, i):
    c = a[0]
    if not isinstance(c, bool):
        c = tob(c)
    label = cstr(ex, st, a[1])
    if not ex.obligation(st, c, label):
        if c is False or ex.feasible(st, c) is False:
            return DEAD
        ex.assume(st, c)
    return None


def vp_cover(ex, st, a, i):
    label = cstr(ex, st, a[0])
    if not ex.quiet and not ex.pure_depth:
        if not ex.covers.get(label):
            ex.covers[label] = ex.query(st, z3.BoolVal(True)) == z3.sat
    return None


def vp_uf(ex, st, a, i):
    name = cstr(ex, st, a[0])
    f = z3.Function(f"uf.{name}", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    if not any(x[0] == 'uf' and x[1] == name for x in st.inputs):
        st.inputs.append(('uf', name, f))
    return f(tobv(a[1], 64), tobv(a[2], 64))


def add_index(ex, st, m):
    m = tobv(m, 64)
    for (n, stay) in st.hist:
        ex.assume(st, z3.Implies(z3.ULT(m, n), stay(m)))
    st.pool = st.pool + [m]


def vp_index(ex, st, a, i):
    add_index(ex, st, a[0])
    return None


def vp_live_heap(ex, st, a, i):
    return sum(1 for r in st.mem.values() if r.kind == 'heap' and r.live)


def vp_obj_size(ex, st, a, i):
    p = ex.to_ptr(a[0])
    if not isinstance(p, Ptr) or p.r is None:
        raise Unsupported('vp_obj_size of unresolved pointer')
    r = st.mem[p.r]
    return r.size if r.live else 0


def vp_readable(ex, st, a, i):
    """[p,p+n) inside a live object"""
    p = ex.to_ptr(a[0])
    n = a[1]
    if isinstance(p, Ptr) and p.r is not None:
        r = st.mem[p.r]
        if not r.live:
            return False
        off, sz, nn = tobv(p.off, 64), tobv(r.size, 64), tobv(n, 64)
        return S.simp(z3.And(z3.ULE(nn, sz), z3.ULE(off, sz - nn)))
    ad = tobv(ex.addr(p), 64)
    cs = []
    for r in st.mem.values():
        if r.live and r.kind in ('heap', 'input'):
            off, sz, nn = ad - r.base, tobv(r.size, 64), tobv(n, 64)
            cs.append(z3.And(z3.ULE(nn, sz), z3.ULE(off, sz - nn)))
    return S.simp(z3.Or(*cs)) if cs else False


def vp_each(ex, st, a, i):
    """attach a universally quantified fact to every cell of an input object:
    for all cells k: pred(env, k, value).  Instantiated at every read of the cell."""
    p, pred, env = ex.to_ptr(a[0]), a[1], a[2]
    r = st.mem[p.r].clone()
    L = r.c
    if L.k != 'uf':
        raise Unsupported('vp_each on a written object')
    old = L.c
    # the closure is what it is now: the frame that made it may be gone when a cell is read
    snap = {i: x for i, x in st.mem.items() if x.live and x.kind == 'stack'}

    def cb(ex, st, off, v, f=pred, env=env, w=L.b, old=old):
        out = list(old(ex, st, off, v)) if old else []
        sh = w.bit_length() - 1
        idx = off >> sh if isinstance(off, int) else S.simp(z3.LShR(off, bv(sh)))
        vv = S.simp(z3.ZeroExt(64 - 8 * w, v)) if w < 8 else v
        st2 = st.copy()
        for i2, x in snap.items():
            y = st2.mem.get(i2)
            if y is None or not y.live:
                st2.mem[i2] = x
        r = ex.pure(st2, f.name, [env, idx, vv])
        size = st.mem[p.r].size
        inb = z3.ULT(tobv(off, 64), tobv(size, 64))
        if r is not None:
            out.append(S.simp(z3.Implies(inb, tob(r))) if not isinstance(r, bool) or not r else True)
        return out
    r.c = Layer('uf', L.parent, L.a, L.b, cb)
    st.mem[p.r] = r
    # remember for replay of concrete models: content function is unchanged
    return None


def vp_touch(ex, st, a, i):
    """instantiate facts about cell idx (reads it)"""
    return None


def vp_note(ex, st, a, i):
    ex.notes.add(cstr(ex, st, a[0]))
    return None


def vp_symbolic(ex, st, a, i):
    return True


def vp_fork(ex, st, a, i):
    """case split"""
    c = a[0]
    if isinstance(c, (bool, int)):
        return c
    if ex.decide(st, c):
        return True
    if ex.decide(st, z3.Not(c)):
        return False
    raise ForkOn(c)


# ------------------------------------------------------------------ libc / C++ runtime
def malloc(ex, st, a, i, align=16):
    n = a[0]
    n = S.simp(n) if not isinstance(n, int) else n
    r = ex.new_region(st, 'heap', n, None, 'heap', align)
    return Ptr(r.rid, 0)


def calloc(ex, st, a, i):
    n = S.simp(tobv(a[0], 64) * tobv(a[1], 64))
    r = ex.new_region(st, 'heap', n, Layer('zero', None), 'heap', 16)
    return Ptr(r.rid, 0)


def aligned_alloc(ex, st, a, i):
    al = a[0]
    if not isinstance(al, int):
        raise Unsupported('symbolic alignment')
    return malloc(ex, st, [a[1]], i, max(16, al))


def free(ex, st, a, i):
    p = a[0]
    if not isinstance(p, Ptr) or p.r is None:
        p = ex.to_ptr(ex.addr(p))
    if p.r is None:
        if isinstance(p.off, int) and p.off == 0:
            return None
        if ex.decide(st, tobv(p.off, 64) == 0):
            return None
        q = ex.resolve(st, p, 1, 'free')
        if q is None:
            return DEAD
        p = q
    r = st.mem[p.r]
    ok = r.live and r.kind == 'heap'
    z = True if (isinstance(p.off, int) and p.off == 0) else tobv(p.off, 64) == 0
    if not ok:
        ex.obligation(st, False, 'memsafe:free', f"free of {'dead' if not r.live else r.kind} object", 'mem')
        return DEAD
    if z is not True and not ex.obligation(st, z, 'memsafe:free', 'free of interior pointer', 'mem'):
        return DEAD
    r = r.clone()
    r.live = False
    st.mem[p.r] = r
    return None


def realloc(ex, st, a, i):
    p = a[0] if isinstance(a[0], Ptr) and a[0].r is not None else ex.to_ptr(ex.addr(a[0]))
    n = a[1]
    r = ex.new_region(st, 'heap', n, None, 'heap', 16)
    if p.r is not None:
        old = st.mem[p.r]
        nn = z3.If(z3.ULT(tobv(n, 64), tobv(old.size, 64)), tobv(n, 64), tobv(old.size, 64))
        rr = st.mem[r.rid].clone()
        rr.c = Layer('copy', rr.c, 0, S.simp(nn), old.c, 0)
        st.mem[r.rid] = rr
        if free(ex, st, [p], i) is DEAD:
            return DEAD
    return Ptr(r.rid, 0)


def memcpy(ex, st, a, i):
    d, s = ex.to_ptr(a[0]), ex.to_ptr(a[1])
    # overlap is undefined for memcpy
    if d.r is not None and d.r == s.r and not S.same(d.off, s.off):
        n = tobv(a[2], 64)
        x, y = tobv(d.off, 64), tobv(s.off, 64)
        ok = z3.Or(z3.ULE(x + n, y), z3.ULE(y + n, x), n == 0, x == y)
        ex.obligation(st, S.simp(ok), 'ub:memcpy overlap', '', 'ub')
    if not ex.memcpy(st, d, s, a[2]):
        return DEAD
    return a[0]


def memmove(ex, st, a, i):
    if not ex.memcpy(st, ex.to_ptr(a[0]), ex.to_ptr(a[1]), a[2], 'memmove'):
        return DEAD
    return a[0]


def memset(ex, st, a, i):
    b = a[1]
    if not isinstance(b, int) and b.size() > 8:
        b = S.simp(z3.Extract(7, 0, b))
    elif isinstance(b, int):
        b &= 255
    if not ex.memset(st, ex.to_ptr(a[0]), b, a[2]):
        return DEAD
    return a[0]


def byte_at(ex, st, p, k):
    return tobv(as_int(ex.reader(st).rd(st.mem[p.r].c, add(p.off, k), 1), 8), 8)


def memcmp(ex, st, a, i):
    p, q, n = ex.to_ptr(a[0]), ex.to_ptr(a[1]), a[2]
    n = S.simp(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n == 0:
        return 0
    if not isinstance(n, int) and (p.r is None or q.r is None):
        if not ex.decide(st, n != 0):
            if ex.decide(st, n == 0):
                return 0
            raise ForkOn(n == 0)
    p = ex.check_access(st, p, n, 'memcmp')
    if p is None:
        return DEAD
    q = ex.check_access(st, q, n, 'memcmp')
    if q is None:
        return DEAD
    if isinstance(n, int) and n <= 64:
        r = bv(0, 32)
        for k in reversed(range(n)):
            x, y = byte_at(ex, st, p, k), byte_at(ex, st, q, k)
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), bv((1 << 32) - 1, 32), bv(1, 32)))
        return S.fold(z3.simplify(r))
    r = ex.fresh(32, 'memcmp')
    k = ex.fresh(64, 'wit')
    nn = tobv(n, 64)
    snap = st.copy()

    def stay(m, p=p, q=q, cp=st.mem[p.r].c, cq=st.mem[q.r].c):
        rd = Reader(None, None)
        x = tobv(as_int(rd.rd(cp, add(p.off, m), 1), 8), 8)
        y = tobv(as_int(rd.rd(cq, add(q.off, m), 1), 8), 8)
        fs = [z3.Implies(z3.Or(r == 0, z3.ULT(m, k)), x == y)]
        m = tobv(m, 64)
        for s in range(1, min(tz(n), 3) + 1):
            # element m of 2^s bytes
            x = tobv(as_int(rd.rd(cp, add(p.off, S.simp(m * bv(1 << s))), 1 << s), 8 << s), 8 << s)
            y = tobv(as_int(rd.rd(cq, add(q.off, S.simp(m * bv(1 << s))), 1 << s), 8 << s), 8 << s)
            fs.append(z3.Implies(z3.And(z3.ULT(m, z3.LShR(nn, bv(s))), z3.Or(r == 0, z3.ULT(m, z3.LShR(k, bv(s))))), x == y))
        return z3.And(*fs)
    x, y = byte_at(ex, st, p, k), byte_at(ex, st, q, k)
    ex.assume(st, z3.Implies(r != 0, z3.And(z3.ULT(k, nn), x != y, (r < 0) == z3.ULT(x, y))))
    for m in st.pool:
        ex.assume(st, z3.Implies(z3.ULT(m, nn), stay(m)))
    # witnesses of earlier searches
    st.hist = st.hist + [(nn, stay)]
    add_index(ex, st, k)
    return r


def strlen(ex, st, a, i):
    p = ex.to_ptr(a[0])
    p = ex.check_access(st, p, 1, 'strlen')
    if p is None:
        return DEAD
    r = st.mem[p.r]
    if isinstance(p.off, int) and isinstance(r.size, int):
        rd = ex.reader(st)
        k, cells = 0, []
        while p.off + k < r.size and k < 256:
            v = rd.rd(r.c, p.off + k, 1)
            v = as_int(S.simp(v) if not isinstance(v, int) else v, 8)
            if not isinstance(v, int):
                cells.append((k, v == 0))
            elif v == 0:
                if cells and ex.feasible(st, z3.Or([c for _, c in cells])):
                    n = bv(k)
                    for m, c in reversed(cells):
                        n = z3.If(c, bv(m), n)
                    return n
                return k
            k += 1
    n = ex.fresh(64, 'strlen')
    ex.assume(st, z3.ULT(n, bv(1 << 47)))

    def stay(m, c=r.c, off=p.off):
        rd = Reader(None, None)
        return tobv(as_int(rd.rd(c, add(off, m), 1), 8), 8) != 0
    ex.assume(st, byte_at(ex, st, p, n) == 0)
    st.hist = st.hist + [(n, stay)]
    for m in st.pool:
        ex.assume(st, z3.Implies(z3.ULT(m, n), stay(m)))
    if ex.check_access(st, p, S.simp(n + 1), 'strlen') is None:
        return DEAD
    st.pool = st.pool + [n]
    return n


def memchr(ex, st, a, i):
    p, c, n = ex.to_ptr(a[0]), a[1], a[2]
    n = S.simp(n) if not isinstance(n, int) else n
    if not isinstance(n, int) or n > 64:
        raise S.Unsupported('memchr of a symbolic length')
    if n == 0:
        return Ptr(None, 0)
    p = ex.check_access(st, p, n, 'memchr')
    if p is None:
        return DEAD
    c = z3.Extract(7, 0, tobv(c, 32))
    pos = bv(n)
    for k in reversed(range(n)):
        pos = z3.If(byte_at(ex, st, p, k) == c, bv(k), pos)
    pos = S.simp(pos)
    if not isinstance(pos, int):
        add_index(ex, st, pos)
    found = z3.ULT(tobv(pos, 64), bv(n))
    if not ex.decide(st, found):
        if ex.decide(st, z3.Not(found)):
            return Ptr(None, 0)
        raise ForkOn(found)
    return Ptr(p.r, add(p.off, pos))


def noop(ex, st, a, i):
    t = i.ty
    return None if t.k == 'void' else ex.undef(t) if t.k != 'ptr' else (a[0] if a else ex.undef(t))


def dead(ex, st, a, i):
    return DEAD


def abort(ex, st, a, i):
    # abnormal termination: the path ends, it never produces a wrong result
    ex.notes.add('abort()/terminate() ends a path')
    return DEAD


def assert_fail(ex, st, a, i):
    ex.obligation(st, False, 'ub:assert() in the code', '', 'ub')
    return DEAD


def throw_ext(ti):
    def h(ex, st, a, i):
        return ('throw', (Ptr(None, 0), ti))
    return h


def cxa_alloc(ex, st, a, i):
    r = ex.new_region(st, 'exc', a[0], None, 'exception')
    return Ptr(r.rid, 0)


def cxa_throw(ex, st, a, i):
    ti = a[1]
    nm = None
    if isinstance(ti, Ptr):
        for g, rid in st.globals.items():
            if rid == ti.r:
                nm = g
    return ('throw', (a[0], nm))


def cxa_begin(ex, st, a, i):
    return a[0]


def rethrow(ex, st, a, i):
    return ('throw', st.exc)


def guard_acquire(ex, st, a, i):
    return 1


EXT = {'vp_any': vp_any, 'vp_any_mem': vp_any_mem, 'vp_assume': vp_assume, 'vp_assert': vp_assert,
       'vp_cover': vp_cover, 'vp_uf': vp_uf, 'vp_index': vp_index, 'vp_live_heap': vp_live_heap,
       'vp_each': vp_each, 'vp_note': vp_note, 'vp_readable': vp_readable, 'vp_obj_size': vp_obj_size,
       'vp_symbolic': vp_symbolic, 'vp_fork': vp_fork,
       'malloc': malloc, 'calloc': calloc, 'free': free, 'realloc': realloc, 'aligned_alloc': aligned_alloc,
       '_Znwm': malloc, '_Znam': malloc, '_ZdlPv': free, '_ZdaPv': free, '_ZdlPvm': free, '_ZdaPvm': free,
       '_ZnwmSt11align_val_t': malloc, '_ZdlPvSt11align_val_t': free, '_ZdlPvmSt11align_val_t': free,
       'memcpy': memcpy, 'memmove': memmove, 'memset': memset, 'memcmp': memcmp, 'bcmp': memcmp, 'strlen': strlen, 'memchr': memchr,
       'abort': abort, '_ZSt9terminatev': abort, '__clang_call_terminate': abort, '__assert_fail': assert_fail,
       '__cxa_pure_virtual': abort, '__cxa_atexit': noop, '__cxa_guard_acquire': guard_acquire,
       '__cxa_guard_release': noop, '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': noop,
       '__cxa_throw': cxa_throw, '__cxa_begin_catch': cxa_begin, '__cxa_end_catch': noop, '__cxa_rethrow': rethrow,
       '_ZSt20__throw_length_errorPKc': throw_ext('_ZTISt12length_error'),
       '_ZSt19__throw_logic_errorPKc': throw_ext('_ZTISt11logic_error'),
       '_ZSt17__throw_bad_allocv': throw_ext('_ZTISt9bad_alloc'),
       '_ZSt28__throw_bad_array_new_lengthv': throw_ext('_ZTISt9bad_alloc'),
       '_ZSt20__throw_out_of_rangePKc': throw_ext('_ZTISt12out_of_range'),
       '_ZSt24__throw_out_of_range_fmtPKcz': throw_ext('_ZTISt12out_of_range'),
       '_ZSt25__throw_bad_function_callv': throw_ext('_ZTISt9exception'),
       '__cxa_throw_bad_array_new_length': throw_ext('_ZTISt9bad_alloc'),
       }
EXTRE = [(re.compile(r'^std::(runtime_error|logic_error|length_error|out_of_range|exception|invalid_argument|overflow_error|underflow_error|range_error|domain_error)::'), noop),
         (re.compile(r'^cista::cista_exception::'), noop),
         (re.compile(r'^std::ios_base::Init::'), noop),
         ]


# ------------------------------------------------------------------ LLVM intrinsics
def intrinsic(name):
    p = name.split('.')
    k = p[1]
    if k in ('lifetime', 'dbg', 'invariant', 'experimental', 'prefetch', 'donothing', 'var'):
        return lambda ex, st, a, i: None
    if k == 'assume':
        def h(ex, st, a, i):
            c = a[0]
            if c is True:
                return None
            if not ex.obligation(st, c, 'ub:assumption of the compiler', '', 'ub'):
                return DEAD
            ex.assume(st, c)
            return None
        return h
    if k in ('memcpy',):
        return lambda ex, st, a, i: memcpy(ex, st, a, i)
    if k == 'memmove':
        return lambda ex, st, a, i: memmove(ex, st, a, i)
    if k == 'memset':
        return lambda ex, st, a, i: memset(ex, st, a, i)
    if k == 'expect':
        return lambda ex, st, a, i: a[0]
    if k in ('launder', 'strip'):
        return lambda ex, st, a, i: a[0]
    if k in ('trap', 'debugtrap', 'ubsantrap'):
        return abort
    if k == 'objectsize':
        return lambda ex, st, a, i: M64
    if k == 'is' and p[2] == 'constant':
        return lambda ex, st, a, i: False
    if k == 'stacksave':
        return lambda ex, st, a, i: Ptr(None, 0)
    if k == 'stackrestore':
        return lambda ex, st, a, i: None
    if k == 'ctpop':
        def h(ex, st, a, i):
            w = i.ty.bits
            v = a[0]
            if isinstance(v, int):
                return bin(v).count('1')
            return popcount(v, w)
        return h
    if k in ('ctlz', 'cttz'):
        def h(ex, st, a, i, k=k):
            w = i.ty.bits
            v = a[0]
            poison = None
            if a[1] is True:
                nz = v != 0 if isinstance(v, int) else (v != bv(0, w))
                if not ex.decide(st, nz):
                    poison = ex.fresh(w, 'poison')
            if isinstance(v, int):
                if v == 0:
                    return w if poison is None else poison
                return w - v.bit_length() if k == 'ctlz' else (v & -v).bit_length() - 1
            r = bv(w, w) if poison is None else poison
            for b in (range(w) if k == 'ctlz' else reversed(range(w))):
                r = z3.If(z3.Extract(b, b, v) == 1, bv(w - 1 - b if k == 'ctlz' else b, w), r)
            return r
        return h
    if k == 'bswap':
        def h(ex, st, a, i):
            w = i.ty.bits
            v = a[0]
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
            return z3.Concat(*[z3.Extract(8 * b + 7, 8 * b, v) for b in range(w // 8)])
        return h
    if k in ('umax', 'umin', 'smax', 'smin'):
        def h(ex, st, a, i, k=k):
            w = i.ty.bits
            c = ex.icmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k], a[0], a[1], w)
            if isinstance(c, bool):
                return a[0] if c else a[1]
            return z3.If(c, tobv(a[0], w), tobv(a[1], w))
        return h
    if k == 'abs':
        def h(ex, st, a, i):
            w = i.ty.bits
            v = tobv(a[0], w)
            return S.fold(z3.simplify(z3.If(v < 0, -v, v)))
        return h
    if k in ('fshl', 'fshr'):
        def h(ex, st, a, i, k=k):
            w = i.ty.bits
            x, y, s = tobv(a[0], w), tobv(a[1], w), tobv(a[2], w)
            s = z3.URem(s, bv(w, w)) if not is_pow2(w) else s & bv(w - 1, w)
            c = z3.Concat(x, y)
            s2 = z3.ZeroExt(w, s)
            r = z3.Extract(2 * w - 1, w, c << s2) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(c, s2))
            return S.fold(z3.simplify(r))
        return h
    if len(p) > 3 and p[3] == 'overflow' or (len(p) > 2 and p[2] == 'with'):
        op = {'uadd': 'add', 'usub': 'sub', 'umul': 'mul', 'sadd': 'add', 'ssub': 'sub', 'smul': 'mul'}[k]
        sg = k[0] == 's'

        def h(ex, st, a, i, op=op, sg=sg):
            w = i.ty.elts[0][1].bits
            x, y = tobv(a[0], w), tobv(a[1], w)
            if op == 'add':
                ok = z3.BVAddNoOverflow(x, y, sg)
                if sg:
                    ok = z3.And(ok, z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                ok = z3.BVSubNoUnderflow(x, y, sg)
                if sg:
                    ok = z3.And(ok, z3.BVSubNoOverflow(x, y))
            else:
                ok = z3.BVMulNoOverflow(x, y, sg)
                if sg:
                    ok = z3.And(ok, z3.BVMulNoUnderflow(x, y))
            return [ex.binop(op, a[0], a[1], w), S.simp(z3.Not(ok))]
        return h
    if k == 'eh' and p[2] == 'typeid':
        def h(ex, st, a, i):
            for g, rid in st.globals.items():
                if isinstance(a[0], Ptr) and rid == a[0].r:
                    return ex.tid(g)
            return ex.tid(None)
        return h
    if k in ('usub', 'uadd') and p[2] == 'sat':
        def h(ex, st, a, i, k=k):
            w = i.ty.bits
            x, y = tobv(a[0], w), tobv(a[1], w)
            if k == 'usub':
                return S.fold(z3.simplify(z3.If(z3.UGE(x, y), x - y, bv(0, w))))
            return S.fold(z3.simplify(z3.If(z3.UGE(x + y, x), x + y, bv((1 << w) - 1, w))))
        return h

    def bad(ex, st, a, i):
        raise Unsupported(f"intrinsic {name}")
    return bad


def popcount(v, w):
    """the definition: sum of the bits, lowest first (8 bits wide: the sum is at most w <= 128)"""
    r = bv(0, 8)
    for b in range(w):
        r = r + z3.ZeroExt(7, z3.Extract(b, b, v))
    return S.fold(z3.simplify(r if w == 8 else z3.ZeroExt(w - 8, r)))
