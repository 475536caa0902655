"""join of symbolic states that reached the same program point (exact: an if-then-else of the
two states under the path condition of the first)"""
import z3
from .bv import *
from .mem import *
from . import sym as S


class No(Exception):
    pass


def mval(ex, c, a, b):
    if a is b:
        return a
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [mval(ex, c, x, y) for x, y in zip(a, b)]
        raise No()
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        raise No()
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            if S.same(a.off, b.off):
                return a
            return Ptr(a.r, S.simp(z3.If(c, tobv(a.off, 64), tobv(b.off, 64))))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            raise No()
        raise No()
    if a is None or b is None:
        raise No()
    if isinstance(a, bool) or isinstance(b, bool) or (not isinstance(a, int) and z3.is_bool(a)) or \
            (not isinstance(b, int) and z3.is_bool(b)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        if not (isinstance(a, bool) or z3.is_bool(a)) or not (isinstance(b, bool) or z3.is_bool(b)):
            raise No()
        return S.simp(z3.If(c, S.tob(a), S.tob(b)))
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        return None      # width unknown: caller supplies it
    w = b.size() if isinstance(a, int) else a.size()
    if not isinstance(a, int) and not isinstance(b, int) and a.size() != b.size():
        raise No()
    x, y = tobv(a, w), tobv(b, w)
    if x.eq(y):
        return a
    return S.simp(z3.If(c, x, y))


def iv(v, n, ex):
    return tobv(as_int(v, 8 * n), 8 * n)


def chain(L):
    out = []
    while L is not None:
        out.append(L)
        L = L.parent
    return out


def mcontent(ex, c, A, B):
    if A is B:
        return A
    ca, cb = chain(A), chain(B)
    ids = {id(x): i for i, x in enumerate(ca)}
    anc = None
    for j, x in enumerate(cb):
        if id(x) in ids:
            anc = x
            ia, ib = ids[id(x)], j
            break
    if anc is None:
        # dict layers are rebuilt on every store: compare parents of the dicts
        for j, x in enumerate(cb):
            for i, y in enumerate(ca):
                if x.k == 'dict' and y.k == 'dict' and x.parent is y.parent:
                    anc = x.parent
                    ia, ib = i + 1, j + 1
                    break
            if anc is not None:
                break
    if anc is not None and all(x.k == 'dict' for x in ca[:ia]) and all(x.k == 'dict' for x in cb[:ib]):
        cells_ = {}
        ok = True
        for x in ca[:ia] + cb[:ib]:
            for o, (n, v) in x.a.items():
                if cells_.setdefault(o, n) != n:
                    ok = False
        srt = sorted(cells_.items())
        for (o, n), (p, m) in zip(srt, srt[1:]):
            if o + n > p:
                ok = False
        if ok:
            rd = Reader()
            d = {}
            for o, n in srt:
                x, y = rd.rd(A, o, n), rd.rd(B, o, n)
                if x is y:
                    d[o] = (n, x)
                    continue
                try:
                    v = mval(ex, c, x, y)
                except No:
                    v = None
                if v is None:
                    if isinstance(x, (Ptr, FnPtr)) and isinstance(y, (Ptr, FnPtr)):
                        raise No()
                    v = S.simp(z3.If(c, iv(x, n, ex), iv(y, n, ex)))
                d[o] = (n, v)
            return Layer('dict', anc, d)
    return Layer('ite', None, c, A, B)


def merge2(ex, A, B):
    """one state equal to A under A's path condition and to B otherwise; raises No"""
    if len(A.frames) != len(B.frames) or A.pend != B.pend or A.nret is not B.nret or A.tainted != B.tainted:
        raise No()
    if (A.exc is not B.exc) and A.exc != B.exc:
        raise No()
    if len(A.hist) != len(B.hist) or any(x[1] is not y[1] for x, y in zip(A.hist, B.hist)):
        raise No()
    if len(A.inputs) != len(B.inputs) or any(x is not y for x, y in zip(A.inputs, B.inputs)):
        raise No()
    if (A.wlog is None) != (B.wlog is None):
        raise No()
    i = 0
    while i < len(A.pc) and i < len(B.pc) and A.pc[i] is B.pc[i]:
        i += 1
    sa, sb = A.pc[i:], B.pc[i:]
    # region axioms of objects created meanwhile are facts, not decisions
    def isax(c):
        return z3.is_and(c) and z3.is_app(c.arg(0)) and c.arg(0).num_args() == 2 and str(c.arg(0).decl()) in ('UGE',) and \
            str(c.arg(0).arg(0)).startswith('base!')
    facts = [c for c in sa + sb if isax(c)]
    da, db = [c for c in sa if not isax(c)], [c for c in sb if not isax(c)]
    if not da:
        raise No()
    c = S.simp(z3.And(*da)) if len(da) > 1 else da[0]
    if isinstance(c, bool):
        raise No()
    M = A.copy()
    need = set()
    if A.pend is not None:
        frm, to = A.pend
        for ph in A.frames[-1].fn.blocks[to].phis:
            v = ph.x.get(frm)
            if v is not None and v.k == 'inst':
                need.add(v.v)
    for fa, fb, fm in zip(A.frames, B.frames, M.frames):
        top = fa is A.frames[-1] and A.pend is not None
        if fa.fn is not fb.fn or fa.bb != fb.bb or fa.ip != fb.ip or fa.ret != fb.ret or fa.prev != fb.prev:
            raise No()
        loc = {}
        for k, x in fa.loc.items():
            if k not in fb.loc:
                continue
            y = fb.loc[k]
            if x is y:
                loc[k] = x
                continue
            if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not isinstance(y, bool):
                if x == y:
                    loc[k] = x
                    continue
                w = ex.loc_width(fa.fn, k)
                if w is None:
                    raise No()
                loc[k] = S.simp(z3.If(c, bv(x, w), bv(y, w)))
                continue
            try:
                v = mval(ex, c, x, y)
                if v is None:
                    raise No()
                loc[k] = v
            except No:
                # a value of the finished iteration that the next one does not use
                if not top or k in need or k < 0:
                    raise
        fm.loc = loc
        fm.allocas = [r for r in fa.allocas]
        if fa.allocas != fb.allocas:
            raise No()
    mem = {}
    for rid, ra in A.mem.items():
        rb = B.mem.get(rid)
        if rb is None:
            if ra.live and ra.kind not in ('global', 'exc'):
                raise No()
            mem[rid] = ra
            continue
        if ra is rb:
            mem[rid] = ra
            continue
        if ra.live != rb.live or not S.same(ra.size, rb.size):
            raise No()
        r = ra.clone()
        r.c = mcontent(ex, c, ra.c, rb.c)
        mem[rid] = r
    for rid, rb in B.mem.items():
        if rid not in A.mem:
            if rb.live and rb.kind not in ('global', 'exc'):
                raise No()
            mem[rid] = rb
    M.mem = mem
    M.globals = {**B.globals, **A.globals}
    M.pc = A.pc[:i] + facts + [z3.simplify(z3.Or(c, z3.And(*db) if db else z3.BoolVal(True)))]
    M.pool = A.pool + [p for p in B.pool if not any(p is q for q in A.pool)]
    if M.wlog is not None:
        M.wlog = A.wlog + [w for w in B.wlog if w not in A.wlog]
    M.clog = [x for x in A.clog if x in B.clog]
    M.model = None
    return M


def reduce(ex, states):
    """states: [(state, tag)] -> joined list (same tags only)"""
    out = []
    for s, t in states:
        for k in range(len(out) - 1, -1, -1):
            if out[k][1] != t:
                continue
            try:
                out[k] = (merge2(ex, out[k][0], s), t)
                break
            except No:
                continue
        else:
            out.append((s, t))
    return out
