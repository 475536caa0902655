"""Loop summarisation.  A natural loop is cut at its header; the state at iteration n
is described exactly where possible:
  - variables that change by a constant each iteration:    v(n) = v0 + c*n
  - other variables: the recurrence F(0)=v0, F(n+1)=G(F(n),n) as an uninterpreted F
    (two loops with provably equal G and v0 share one F: this is how a loop of the real
    code is proved equal to the loop of its specification)
  - memory written once per iteration at an affine offset: exact element-wise content
  - everything else is havocked; candidate invariants (sidecar) are then filtered by
    Houdini-style induction before they may be assumed
The fact that every earlier iteration did not leave the loop is kept as a history
fact, instantiated at the indices of interest."""
import z3
from .bv import *
from .mem import *
from . import sym as S
from . import merge

NMAX = 1 << 62


def free_syms(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add((d.name(), x.num_args(), x if x.num_args() == 0 else None))
            st.extend(x.children())
    return acc


_vs = z3.Solver()
_vs.set('timeout', 1500)


def valid(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    _vs.push()
    _vs.add(z3.Not(e))
    r = _vs.check()
    _vs.pop()
    return r == z3.unsat


def uid_of(nm):
    if '!' in nm:
        t = nm.rsplit('!', 1)[1]
        if t.isdigit():
            return int(t)
    return 0


class Var:
    __slots__ = ('key', 'kind', 'w', 'init', 'reg', 'mode', 'step', 'sym', 'F', 'G', 'name', 'wit', 'nw')


class Ctx:
    """what a candidate invariant may talk about"""

    def __init__(self, ex, st, n, vals, names, entry):
        self.ex, self.st, self.n, self.vals, self.entry = ex, st, n, vals, entry
        self.names = names

    def __getitem__(self, nm):
        for k, v in self.names.items():
            if v == nm or v.split('.')[0] == nm:
                return self.vals[k]
        raise KeyError(nm)


def to_int(ex, v):
    if isinstance(v, (Ptr, FnPtr)):
        return ex.addr(v)
    return v


def conserved(ex, vars):
    """candidate invariants between counters with irregular steps: sums and differences that stay,
    counters that never pass their first value"""
    ks = [k for k, v in vars.items() if v.kind == 'int' and v.mode in ('rec', 'havoc') and v.w in (32, 64)]
    if not ks or len(ks) > 6:
        return []
    out = []

    def two(k, l, w, op):
        i = op(S.tobv(vars[k].init, w), S.tobv(vars[l].init, w))
        return lambda c: op(S.tobv(to_int(ex, c.vals[k]), w), S.tobv(to_int(ex, c.vals[l]), w)) == i

    def one(k, w, rel):
        i = S.tobv(vars[k].init, w)
        return lambda c: rel(S.tobv(to_int(ex, c.vals[k]), w), i)
    for x, k in enumerate(ks):
        w = vars[k].w
        out.append(one(k, w, z3.ULE))
        out.append(one(k, w, z3.UGE))
        for l in ks[x + 1:]:
            if vars[l].w == w:
                out.append(two(k, l, w, lambda a, b: a + b))
                out.append(two(k, l, w, lambda a, b: a - b))
    return out


def concrete_trip(ex, s0, frm, header, max_iter=260, max_states=12, early=False):
    """loops whose trip count is fixed on this path are simply executed"""
    fr0 = s0.frames[-1]
    fn = fr0.fn
    stop = S.Stop()
    stop.depth, stop.header, stop.body, stop.fn = len(s0.frames), header, fn.loops[header], fn
    mark = len(ex.obls)
    cur = [(s0.copy(), frm)]
    ex_out = []
    for it in range(max_iter):
        nxt = []
        if not early:
            ex_out = []
        for s, f in cur:
            s.pend = None
            ex.enter(s, s.frames[-1], f, header)
            for k, e in ex.explore(s, stop):
                if k == 'back':
                    nxt.append((e, e.pend[0]))
                elif k == 'exit':
                    ex_out.append(e)
        if not nxt:
            return ex_out
        if len(nxt) > 1:
            nxt = merge.reduce(ex, nxt)
        if (ex_out and not early) or len(nxt) > max_states:
            del ex.obls[mark:]
            return None
        cur = nxt
    del ex.obls[mark:]
    return None


def bounded_unroll(ex, s0, frm, header, k):
    fr0 = s0.frames[-1]
    fn = fr0.fn
    stop = S.Stop()
    stop.depth, stop.header, stop.body, stop.fn = len(s0.frames), header, fn.loops[header], fn
    cur = [(s0.copy(), frm)]
    outs = []
    for it in range(k + 1):
        nxt = []
        for s, f in cur:
            s.pend = None
            ex.enter(s, s.frames[-1], f, header)
            for kd, e in ex.explore(s, stop):
                if kd == 'back':
                    nxt.append((e, e.pend[0]))
                elif kd == 'exit':
                    outs.append(e)
        cur = merge.reduce(ex, nxt) if len(nxt) > 8 else nxt
        if not cur:
            return outs
    if cur:
        ex.unwound.append((S.shorten(fn.dname), k))
    return outs


def summarize(ex, s0, frm, header):
    fr0 = s0.frames[-1]
    fn = fr0.fn
    body = fn.loops[header]
    depth = len(s0.frames)
    stop = S.Stop()
    stop.depth, stop.header, stop.body, stop.fn = depth, header, body, fn
    phis = fn.blocks[header].phis
    uid0 = ex.uid
    n = ex.fresh(64, 'n')
    vars = {}
    for p in phis:
        v = ex.val(s0, fr0, p.x[frm])
        vars[('phi', p.id)] = mkvar(ex, ('phi', p.id), v, p.ty, p.name)
    regions = {}      # rid -> None (undetermined) | ('elem', slots) | ('havoc',w)
    bad = set()
    guessed = set()
    nrounds = 0
    while True:
        nrounds += 1
        if nrounds > 24:
            raise S.Unsupported('loop summary does not stabilise')
        new = [k for k, v in vars.items() if v.mode == 'unknown' and k not in bad and k not in guessed]
        if new:
            # the step of the first iteration is the first guess (checked in the rounds below)
            first = first_steps(ex, s0, fn, header, frm, stop, vars, phis)
            guessed.update(new)
            for k in new:
                if first is not None and first.get(k) is not None:
                    vars[k].mode, vars[k].step = 'affine', first[k]
        H = make_H(ex, s0, fn, header, frm, n, vars, regions)
        H.wlog = []
        ex.quiet += 1
        try:
            res = ex.explore(H.copy(), stop)
        finally:
            ex.quiet -= 1
        backs = [s for k, s in res if k == 'back']
        exits = [s for k, s in res if k == 'exit']
        if not backs:
            # body never completes an iteration: no loop after all
            H2 = s0.copy()
            f = H2.frames[-1]
            ex.enter(H2, f, frm, header)
            # a single pass; a back edge here would contradict the finding above
            r2 = ex.explore(H2, stop)
            if any(k == 'back' for k, _ in r2):
                raise S.Unsupported('loop re-entry')
            return [s for k, s in r2 if k == 'exit']
        changed = False
        # ---- writes
        for b in backs:
            for (rid, off, sz) in b.wlog:
                if rid not in s0.mem:
                    continue
                if isinstance(off, int) and isinstance(sz, int) and sz <= 16 and rid not in regions:
                    if cover(vars, rid, off, sz):
                        continue
                    # overlapping but different extents -> split into region havoc
                    ov = [k for k in vars if k[0] == 'cell' and k[1] == rid and k[2] < off + sz and off < k[2] + k[3]]
                    if ov:
                        regions[rid] = ('havoc', 1)
                        for k in [k for k in vars if k[0] == 'cell' and k[1] == rid]:
                            del vars[k]
                    else:
                        v = ex.reader(s0).rd(s0.mem[rid].c, off, sz)
                        v = S.simp(v) if not isinstance(v, (Ptr, FnPtr)) else v
                        if not isinstance(v, (Ptr, FnPtr, int)) and sz == 8:
                            v = reptr(ex, v)
                        vars[('cell', rid, off, sz)] = mkvar(ex, ('cell', rid, off, sz), v, None, f"mem{off}", sz * 8)
                    changed = True
                elif rid not in regions:
                    regions[rid] = None
                    for k in [k for k in vars if k[0] == 'cell' and k[1] == rid]:
                        del vars[k]
                    changed = True
            for rid, r in b.mem.items():
                o = s0.mem.get(rid)
                if o is None:
                    if r.live and r.kind == 'heap':
                        raise S.Unsupported('allocation inside summarised loop')
                elif o.live != r.live or not S.same(o.size, r.size):
                    raise S.Unsupported('object lifetime changes inside summarised loop')
        if changed:
            continue
        # ---- variable updates
        nv = [next_vals(ex, b, vars, phis) for b in backs]
        for k, v in vars.items():
            if k in bad:
                continue
            ds = set()
            for x in nv:
                d = delta(ex, v, cur(ex, v, n), x[k])
                ds.add(d)
                if d is None:
                    break
            if len(ds) == 1 and None not in ds:
                d = ds.pop()
                if v.mode == 'unknown':
                    v.mode, v.step = 'affine', d
                    changed = True
                elif v.mode == 'affine' and v.step != d:
                    v.mode = 'unknown'
                    bad.add(k)
                    changed = True
            elif v.mode == 'affine':
                v.mode = 'unknown'
                bad.add(k)
                changed = True
        if changed:
            continue
        # ---- pointer variables must stay in their object
        for k, v in vars.items():
            if v.kind == 'ptr':
                for x in nv:
                    if not (isinstance(x[k], Ptr) and x[k].r == v.reg):
                        q = ex.to_ptr(ex.addr(x[k]))
                        if not (isinstance(q, Ptr) and q.r == v.reg):
                            raise S.Unsupported('loop variable points into different objects')
        # ---- recurrences for the remaining variables
        conds = [backcond(H, b) for b in backs]
        unk = [v for v in vars.values() if v.mode == 'unknown']
        if unk:
            G = {}
            pure = True
            xs = {v.sym.get_id() for v in unk}
            okn = {str(v.sym) for v in unk} | {str(n)}
            for v in unk:
                g = None
                for c, x in reversed(list(zip(conds, nv))):
                    val = flat(ex, v, x[v.key])
                    g = val if g is None else z3.If(c, S.tobv(val, v.w), S.tobv(g, v.w))
                g = z3.simplify(S.tobv(g, v.w))
                G[v.key] = g
                for nm, ar, e in free_syms(g):
                    if uid_of(nm) > uid0 and nm not in okn:
                        pure = False
            if pure:
                match_folds(ex, s0, n, unk, G)
                for v in unk:
                    v.mode = 'rec'
                continue
            for v in unk:
                v.mode = 'havoc'
            continue
        # ---- narrow counters that provably never wrap
        fresh = [v for v in vars.values() if v.nw is None and v.mode == 'affine' and v.step != 0 and v.kind == 'int' and v.w < 64]
        if fresh:
            for v in fresh:
                v.nw = False
                for k in ('z', 's'):
                    if nowrap_step(ex, s0, H, n, v, k, backs, exits, uid0, vars):
                        v.nw = k
                        break
            nw_ok = True
            if any(v.nw for v in fresh):
                continue
        # ---- element-wise memory
        facts = []
        if any(p is None or p[0] == 'elem' and p[2] == 0 for p in regions.values()):
            hs, sols = history(ex, H, n, backs, exits, uid0, vars)
            facts = [z3.ULT(n, bv(NMAX))] + [z3.Implies(z3.ULT(m, n), hs(m)) for m in sols]
        for rid, plan in list(regions.items()):
            if plan is None:
                slots = elem_slots(ex, s0, H, n, rid, backs, conds, uid0, vars, facts)
                if slots is None:
                    regions[rid] = ('havoc', hav_w(ex, s0, rid, backs))
                else:
                    regions[rid] = ('elem', slots, 0)
                changed = True
            elif plan[0] == 'elem' and plan[2] == 0:
                if verify_elem(ex, H, n, rid, plan[1], backs, facts):
                    regions[rid] = ('elem', plan[1], 1)
                else:
                    regions[rid] = ('havoc', hav_w(ex, s0, rid, backs))
                changed = True
        if changed:
            # all elem plans must be re-verified when something else was havocked
            if any(p and p[0] == 'havoc' for p in regions.values()):
                for r, p in regions.items():
                    if p and p[0] == 'elem':
                        regions[r] = ('elem', p[1], 0)
            continue
        # the memory plan may have changed since the no-wrap facts were shown
        lost = [v for v in vars.values() if v.nw and not nowrap_step(ex, s0, H, n, v, v.nw, backs, exits, uid0, vars)]
        if lost:
            for v in lost:
                v.nw = False
            for r, p in regions.items():
                if p and p[0] == 'elem':
                    regions[r] = ('elem', p[1], 0)
            continue
        break
    # ------------------------------------------------------------ history
    stay, sols = history(ex, H, n, backs, exits, uid0, vars)

    # iteration numbers at which a counter has one of the values of interest
    more = []
    for v in vars.values():
        if v.kind == 'int' and v.mode == 'affine' and v.step in (1, (1 << v.w) - 1) and v.w in (32, 64) and not (isinstance(v.init, int) and v.init == 0):
            for m in s0.pool:
                i = S.tobv(v.init, v.w)
                p = z3.Extract(v.w - 1, 0, S.tobv(m, 64)) if v.w < 64 else S.tobv(m, 64)
                d = z3.simplify(p - i if v.step == 1 else i - p)
                more.append(d if v.w == 64 else z3.ZeroExt(64 - v.w, d))

    def with_history(T):
        ex.assume(T, z3.ULT(n, bv(NMAX)))
        ex.assume(T, z3.Implies(z3.UGE(n, bv(1)), stay(n - bv(1))))
        for m in sols + s0.pool + more:
            ex.assume(T, z3.Implies(z3.ULT(m, n), stay(m)))
        for v in vars.values():
            if v.mode == 'rec':
                rec_axioms(ex, T, v, vars, n)
        return T
    H = with_history(make_H(ex, s0, fn, header, frm, n, vars, regions))
    consts = [S.simp(c) for c in sols]
    if len(exits) > 1 and any(isinstance(c, int) and c <= 70 for c in consts) and ex.decide(H, z3.ULE(n, bv(70))):
        # constant bound and early exits: complete unrolling is exact
        r = concrete_trip(ex, s0, frm, header, 72, 12, True)
        if r is not None:
            return r
    taint = any(v.mode in ('havoc', 'rec') for v in vars.values()) or any(p and p[0] == 'havoc' for p in regions.values())
    # ------------------------------------------------------------ candidate invariants
    cands = ex.cfg.loop_invariants(fn, header) + conserved(ex, vars)
    names = {('phi', p.id): p.name for p in phis}
    kept = []
    if cands:
        base = []
        init = {k: v.init for k, v in vars.items()}
        c0 = Ctx(ex, s0, bv(0), init, names, s0)
        for c in cands:
            try:
                e = c(c0)
                if e is True or ex.decide(s0, e):
                    base.append(c)
            except (KeyError, S.Unsupported, IndexError, AttributeError):
                pass
        kept = base
        while kept:
            T = H.copy()
            vals = {k: cur(ex, v, n) for k, v in vars.items()}
            cx = Ctx(ex, T, n, vals, names, s0)
            for c in kept:
                ex.assume(T, c(cx))
            T.wlog = []
            ex.quiet += 1
            try:
                res = ex.explore(T, stop)
            finally:
                ex.quiet -= 1
            drop = set()
            for k, b in res:
                if k != 'back':
                    continue
                x = next_vals(ex, b, vars, phis)
                cb = Ctx(ex, b, n + bv(1), x, names, s0)
                for i, c in enumerate(kept):
                    if i not in drop:
                        try:
                            e = c(cb)
                            if e is not True and not ex.decide(b, e):
                                drop.add(i)
                        except (KeyError, S.Unsupported, IndexError, AttributeError):
                            drop.add(i)
            if not drop:
                break
            kept = [c for i, c in enumerate(kept) if i not in drop]
        vals = {k: cur(ex, v, n) for k, v in vars.items()}
        cx = Ctx(ex, H, n, vals, names, s0)
        for c in kept:
            ex.assume(H, c(cx))
    # ------------------------------------------------------------ final pass
    H.wlog = None
    if s0.wlog is not None:
        H.wlog = list(s0.wlog)
        for k in vars:
            if k[0] == 'cell':
                H.wlog.append((k[1], k[2], k[3]))
        for rid in regions:
            H.wlog.append((rid, None, None))
    H.tainted = s0.tainted or taint
    H.hist = s0.hist + [(n, stay)]
    if not ex.quiet:
        key = S.shorten(fn.dname)
        modes = {'affine': 0, 'rec': 0, 'havoc': 0, 'elem': 0}
        for v in vars.values():
            modes[v.mode] += 1
        for p in regions.values():
            modes[p[0]] = modes.get(p[0], 0) + 1
        ex.loops_summarised[f"{key}#{fn.loop_order.index(header)}"] = \
            ' '.join(f"{k}={c}" for k, c in modes.items() if c) + (f" invariants={len(kept)}/{len(cands)}" if cands else '')
    fin = ex.explore(H, stop)
    outs = []
    for k, e in fin:
        if k != 'exit':
            continue
        for (nj, sj) in s0.hist:
            ex.assume(e, z3.Implies(z3.ULT(n, nj), sj(n)))
        e.pool = list(e.pool) + [n]
        outs.append(e)
    return outs


def history(ex, H, n, backs, exits, uid0, vars):
    parts = [[c for c in b.pc[len(H.pc):]] for b in backs]
    stay = make_stay(ex, parts, n, uid0, vars)
    sols = []
    for e in exits:
        for c in e.pc[len(H.pc):]:
            s = solve_eq(c, n)
            if s is not None and not any(s.eq(t) for t in sols):
                sols.append(s)
    for b in backs:
        for c in b.pc[len(H.pc):]:
            s = solve_eq(z3.Not(c), n)
            if s is not None and not any(s.eq(t) for t in sols):
                sols.append(s)
    return stay, sols


def nowrap(ex, v, k, n):
    """the counter equals its mathematical value at iteration n (z: unsigned, s: signed)"""
    i = S.tobv(v.init, v.w)
    x = z3.ZeroExt(64 - v.w, i) if k == 'z' else z3.SignExt(64 - v.w, i)
    st = v.step if v.step < 1 << (v.w - 1) else v.step - (1 << v.w)
    lim = bv(1 << v.w)
    if k == 'z':
        if st > 0:
            return z3.And(z3.ULT(n, lim), z3.ULT(x + n * bv(st), lim)), x + n * bv(st)
        return z3.And(z3.ULT(n, lim), z3.ULE(n * bv(-st), x)), x - n * bv(-st)
    half = bv(1 << (v.w - 1))
    e = x + n * bv(st & M64)
    return z3.And(z3.ULT(n, lim), e < half, e >= -half), e


def nowrap_step(ex, s0, H, n, v, k, backs, exits, uid0, vars):
    stay, sols = history(ex, H, n, backs, exits, uid0, vars)
    facts = [nowrap(ex, v, k, n)[0]]
    for m in sols:
        facts.append(z3.Implies(z3.ULT(m, n), stay(m)))
    goal = nowrap(ex, v, k, n + bv(1))[0]
    for b in backs:
        T = b.copy()
        T.model = None
        T.pc = T.pc + facts
        if not ex.decide(T, goal):
            return False
    return True


def widen(ex, vars, n, e):
    """rewrite the extended narrow counters to their 64-bit form"""
    sub = []
    for v in vars.values():
        if v.nw and v.mode == 'affine':
            c = flatcur(ex, v, n)
            ext = z3.ZeroExt if v.nw == 'z' else z3.SignExt
            sub.append((z3.simplify(ext(64 - v.w, c)), z3.simplify(nowrap(ex, v, v.nw, n)[1])))
    return z3.simplify(z3.substitute(z3.simplify(e), *sub)) if sub else e


def reptr(ex, v):
    q = ex.to_ptr(v)
    return q if isinstance(q, Ptr) and q.r is not None else v


def hav_w(ex, s0, rid, backs):
    c = s0.mem[rid].c
    w = 1
    q = c
    while q is not None:
        if q.k == 'uf':
            w = q.b
            break
        if q.k == 'copy':
            q = q.parent
            continue
        q = q.parent
    for b in backs:
        for r, off, sz in b.wlog:
            if r == rid and (off is None or not isinstance(sz, int) or sz != w or (1 << tz(off)) % max(w, 1)):
                return 1
    return w


def mkvar(ex, key, v, ty, name, w=None):
    r = Var()
    r.key, r.init, r.name = key, v, name
    r.mode, r.step, r.F, r.G, r.wit = 'unknown', None, None, None, None
    r.nw = None
    if isinstance(v, (Ptr,)) and v.r is None and not isinstance(v.off, int):
        q = ex.to_ptr(v.off)
        if isinstance(q, Ptr):
            v = q
            r.init = v
    if isinstance(v, Ptr) and v.r is not None:
        r.kind, r.w, r.reg = 'ptr', 64, v.r
    elif isinstance(v, Ptr):
        r.kind, r.w, r.reg = 'rawptr', 64, None
    elif isinstance(v, FnPtr):
        raise S.Unsupported('function pointer loop variable')
    elif isinstance(v, list):
        raise S.Unsupported('aggregate loop variable')
    else:
        r.reg = None
        if ty is not None:
            r.w = ty.bits
        else:
            r.w = w
        r.kind = 'bool' if r.w == 1 else 'int'
    r.sym = ex.fresh(r.w, 'x')
    return r


def cover(vars, rid, off, sz):
    return ('cell', rid, off, sz) in vars


def iv(ex, v):
    """initial value as BV term"""
    x = v.init
    if v.kind == 'ptr':
        return S.tobv(x.off, 64)
    if v.kind == 'rawptr':
        return S.tobv(ex.addr(x), 64)
    return S.tobv(x, v.w)


def nw(n, w):
    return n if w == 64 else (z3.Extract(w - 1, 0, n) if w < 64 else z3.ZeroExt(w - 64, n))


def flatcur(ex, v, n):
    if v.mode == 'affine':
        if v.step == 0:
            return iv(ex, v)
        nn = nw(n, v.w)
        st = v.step
        if st == 1:
            return z3.simplify(iv(ex, v) + nn)
        sg = st if st < 1 << (v.w - 1) else st - (1 << v.w)
        a = abs(sg)
        t = nn * bv(a, v.w)
        return z3.simplify(iv(ex, v) + t if sg > 0 else iv(ex, v) - t)
    if v.mode == 'rec':
        return v.F(n)
    return v.sym


def cur(ex, v, n):
    if v.mode == 'affine' and v.step == 0:
        return v.init
    t = flatcur(ex, v, n)
    if v.kind == 'ptr':
        return Ptr(v.reg, S.simp(t))
    if v.kind == 'rawptr':
        return Ptr(None, t)
    if v.kind == 'bool':
        return S.simp(t == 1)
    return S.fold(t)


def flat(ex, v, x):
    if v.kind == 'ptr':
        if not isinstance(x, Ptr) or x.r is None:
            x = ex.to_ptr(ex.addr(x))
        if not isinstance(x, Ptr) or x.r != v.reg:
            raise S.Unsupported('loop variable points into different objects')
        return S.tobv(x.off, 64)
    if v.kind == 'rawptr':
        return S.tobv(ex.addr(x), 64)
    if isinstance(x, Ptr):
        x = ex.addr(x)
    return S.tobv(x, v.w)


def delta(ex, v, c, x):
    try:
        a = flat(ex, v, c)
        b = flat(ex, v, x)
    except S.Unsupported:
        return None
    d = z3.simplify(b - a)
    return d.as_long() if z3.is_bv_value(d) else None


def first_steps(ex, s0, fn, header, frm, stop, vars, phis):
    H = s0.copy()
    ex.enter(H, H.frames[-1], frm, header)
    H.wlog = []
    ex.quiet += 1
    try:
        res = ex.explore(H, stop)
    finally:
        ex.quiet -= 1
    out = {}
    bs = [b for k, b in res if k == 'back']
    nv = [next_vals(ex, b, vars, phis) for b in bs]
    for k, v in vars.items():
        ds = {delta(ex, v, v.init, x[k]) for x in nv}
        out[k] = ds.pop() if len(ds) == 1 else None
    return out


def next_vals(ex, b, vars, phis):
    fr = b.frames[-1]
    prev = b.pend[0]
    out = {}
    for p in phis:
        out[('phi', p.id)] = ex.val(b, fr, p.x[prev])
    for k in vars:
        if k[0] == 'cell':
            v = ex.reader(b).rd(b.mem[k[1]].c, k[2], k[3])
            if not isinstance(v, (Ptr, FnPtr, int, bool)) and vars[k].kind == 'ptr':
                v = reptr(ex, v)
            out[k] = v
    return out


def make_H(ex, s0, fn, header, frm, n, vars, regions):
    H = s0.copy()
    H.model = None
    fr = H.frames[-1]
    for k, v in vars.items():
        if k[0] == 'phi':
            fr.loc[k[1]] = cur(ex, v, n)
    for rid, plan in regions.items():
        if plan is None:
            continue
        r = H.mem[rid].clone()
        if plan[0] == 'elem':
            r.c = Layer('elem', s0.mem[rid].c, plan[1], n)
        else:
            w = plan[1]
            r.c = Layer('uf', None, ex.freshf(8 * w, 'hav'), w, None)
        H.mem[rid] = r
    for k, v in vars.items():
        if k[0] == 'cell':
            if v.mode == 'affine' and v.step == 0:
                continue
            x = cur(ex, v, n)
            r = H.mem[k[1]].clone()
            r.c = mk_store(r.c, k[2], k[3], x)
            H.mem[k[1]] = r
    for v in vars.values():
        if v.nw and v.mode == 'affine':
            H.pc.append(nowrap(ex, v, v.nw, n)[0])
    fr.prev, fr.bb, fr.ip = frm, header, 0
    return H


def backcond(H, b):
    cs = b.pc[len(H.pc):]
    return z3.And(*cs) if cs else z3.BoolVal(True)


def subst_n(e, n, m, vars):
    sub = [(n, S.tobv(m, 64))]
    return z3.substitute(e, *sub)


def untrunc(e, n):
    """drop truncate-and-extend pairs around expressions in n (the caller proves it equal)"""
    sub, st, seen = [], [e], set()
    nid = n.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and x.size() == 64:
            y = x.arg(0)
            if y.decl().kind() == z3.Z3_OP_EXTRACT and y.params()[1] == 0 and y.arg(0).size() == 64:
                if any(z.get_id() == nid for z in consts_of(y)):
                    sub.append((x, y.arg(0)))
                    continue
        st.extend(x.children())
    return z3.simplify(z3.substitute(e, *sub)) if sub else None


def consts_of(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            yield x
        st.extend(x.children())


def with_facts(ex, b, facts):
    if not facts:
        return b
    T = b.copy()
    T.model = None
    T.pc = T.pc + facts
    return T


def elem_slots(ex, s0, H, n, rid, backs, conds, uid0, vars, facts=()):
    """[(o0, step, w, valfn)] or None"""
    slots = {}
    okn = {str(n)}
    for b, c in zip(backs, conds):
        seen = []
        for (r, off, sz) in b.wlog:
            if r != rid:
                continue
            if off is None or not isinstance(sz, int):
                return None
            e = S.tobv(off, 64)
            ew = widen(ex, vars, n, e)
            et = untrunc(ew, n)
            if et is not None:
                T = with_facts(ex, b, facts)
                if ex.decide(T, et == e):
                    e = ew = et
            o0 = S.simp(z3.substitute(ew, (n, bv(0))))
            st = S.simp(z3.substitute(ew, (n, bv(1))) - S.tobv(o0, 64))
            if not isinstance(st, int) or st == 0:
                return None
            if not valid(ew == S.tobv(o0, 64) + n * bv(st)) or not (ew is e or ex.decide(with_facts(ex, b, facts), ew == e)):
                return None
            if any(uid_of(nm) > uid0 and nm not in okn for nm, _, _ in free_syms(S.tobv(o0, 64))):
                return None
            key = (str(o0), st, sz)
            slots.setdefault(key, (o0, st, sz, e, []))
            if key not in seen:
                seen.append(key)
        for key in seen:
            o0, st, sz, e, lst = slots[key]
            v = S.tobv(as_int(ex.reader(b).rd(b.mem[rid].c, S.simp(e), sz), 8 * sz), 8 * sz)
            lst.append((c, v))
    res = []
    old = s0.mem[rid].c
    for o0, st, sz, e, lst in slots.values():
        sst = st if st < 1 << 63 else st - (1 << 64)
        if abs(sst) < sz or (len(slots) > 1 and abs(sst) < sz):
            return None
        if len(lst) == len(backs):
            val = lst[-1][1]
            for c, v in lst[:-1]:
                val = z3.If(c, v, val)
        else:
            val = S.tobv(as_int(ex.reader(s0).rd(old, S.simp(e), sz), 8 * sz), 8 * sz)
            for c, v in lst:
                val = z3.If(c, v, val)
        val = z3.simplify(val)
        for nm, ar, x in free_syms(val):
            if uid_of(nm) > uid0 and nm not in okn and not any(v.F is not None and v.F.name() == nm
                                                             for v in vars.values()):
                return None
        res.append((o0, sst, sz, val, n))
    if len(res) > 1:
        # slots of one iteration must be disjoint across iterations
        res.sort(key=lambda t: str(t[0]))
        st = res[0][1]
        for a in res:
            if a[1] != st:
                return None
            for b2 in res:
                if a is not b2:
                    d = S.simp(S.tobv(a[0], 64) - S.tobv(b2[0], 64))
                    if not isinstance(d, int):
                        return None
                    dd = (d if d < 1 << 63 else d - (1 << 64)) % abs(st)
                    if dd < b2[2] or abs(st) - dd < a[2]:
                        return None
    return res


def verify_elem(ex, H, n, rid, slots, backs, facts=()):
    for b in backs:
        wr = set()
        for (r, off, sz) in b.wlog:
            if r != rid:
                continue
            if off is None:
                return False
            hit = False
            for o0, st, w, val, _ in slots:
                pos = S.tobv(off, 64) == S.tobv(o0, 64) + n * bv(st & M64)
                if sz == w and (valid(pos) or ex.decide(with_facts(ex, b, facts), pos)):
                    hit = True
            if not hit:
                return False
        for o0, st, w, val, _ in slots:
            off = S.simp(S.tobv(o0, 64) + n * bv(st & M64))
            v = S.tobv(as_int(ex.reader(b).rd(b.mem[rid].c, off, w), 8 * w), 8 * w)
            T = with_facts(ex, b, facts).copy()
            ex.assume(T, z3.ULT(n, bv(NMAX)))
            if not ex.decide(T, v == val):
                return False
    return True


def rd_elem(reader, L, off, n):
    slots, cnt = L.a, L.b
    p = reader.rd(L.parent, off, n)
    r = S.tobv(as_int(p, 8 * n), 8 * n)
    for o0, st, w, val, nv in slots:
        if n > w:
            return reader.bytewise(L, off, n)
        a = abs(st)
        d = S.simp(S.tobv(off, 64) - S.tobv(o0, 64)) if st > 0 else S.simp(S.tobv(o0, 64) - S.tobv(off, 64))
        d = S.tobv(d, 64)
        if st < 0:
            # byte inside a cell counts downwards: shift so that cell k covers d in [k*a-(w-1), k*a]
            d = S.tobv(S.simp(d + bv(w - 1)), 64) if w > 1 else d
        idx = z3.LShR(d, bv(a.bit_length() - 1)) if is_pow2(a) else z3.UDiv(d, bv(a))
        rem = d & bv(a - 1) if is_pow2(a) else z3.URem(d, bv(a))
        idx = S.simp(idx)
        idx = S.tobv(idx, 64)
        whole = (z3.substitute(val, (nv, idx)))
        if n == w:
            al = is_pow2(w) and is_pow2(a) and (1 << tz(d if st > 0 else S.simp(d - bv(w - 1)))) % w == 0
            if not al and w > 1:
                return reader.bytewise(L, off, n)
            lo = 0 if st > 0 else w - 1
            hit = z3.And(z3.ULT(idx, cnt), rem == bv(lo)) if a != w or w == 1 and a != 1 else z3.ULT(idx, cnt)
            if a == w:
                hit = z3.ULT(idx, cnt)
            r = z3.If(hit, whole, r)
        else:
            if n != 1:
                return reader.bytewise(L, off, n)
            inw = z3.ULT(rem, bv(w)) if a != w else z3.BoolVal(True)
            k = rem if st > 0 else (bv(w - 1) - rem)
            # byte k of the cell
            byte = z3.Extract(7, 0, whole)
            for q in range(1, w):
                byte = z3.If(k == bv(q), z3.Extract(8 * q + 7, 8 * q, whole), byte)
            r = z3.If(z3.And(z3.ULT(idx, cnt), inw), byte, r)
    return z3.simplify(r)


def make_stay(ex, parts, n, uid0, vars):
    """stay(m): iteration m went back to the header (a sound weakening)"""
    drop = set()
    clean = []
    recn = {v.F.name() for v in vars.values() if v.F is not None}
    hav = {str(v.sym) for v in vars.values() if v.mode == 'havoc'}
    for p in parts:
        q = []
        for c in p:
            ok, ren = True, []
            for nm, ar, e in free_syms(c):
                if uid_of(nm) > uid0 and nm != str(n) and nm not in recn:
                    if ar > 0:
                        ok = False
                        break
                    ren.append(e)
            if ok:
                q.append((c, ren))
        clean.append(q)

    def stay(m):
        m = S.tobv(m, 64)
        ors = []
        cache = {}
        for q in clean:
            cs = []
            for c, ren in q:
                sub = [(n, m)]
                for e in ren:
                    k = str(e)
                    if k not in cache:
                        ex.uid += 1
                        nm = k.rsplit('!', 1)[0] + f"!{ex.uid}"
                        cache[k] = z3.Const(nm, e.sort())
                    sub.append((e, cache[k]))
                cs.append(z3.substitute(c, *sub))
            ors.append(z3.And(*cs) if cs else z3.BoolVal(True))
        return z3.simplify(z3.Or(*ors))
    return stay


def rec_axioms(ex, T, v, vars, n):
    init = iv(ex, v)
    ex.assume(T, v.F(bv(0)) == init)
    ex.assume(T, z3.Implies(z3.UGE(n, bv(1)), v.F(n) == v.G(n - bv(1))))
    ex.assume(T, v.F(n + bv(1)) == v.G(n))


def match_folds(ex, s0, n, unk, G):
    """give each unknown variable a function F of the iteration number; reuse the F of an
    earlier loop when init and step function are provably the same"""
    keys = [v.key for v in unk]
    # simultaneous system: try to match the whole system in some order, then single variables
    subs_syms = [v.sym for v in unk]
    single = {}
    for v in unk:
        deps = {nm for nm, ar, e in free_syms(G[v.key])}
        if not any(str(o.sym) in deps for o in unk if o is not v):
            single[v.key] = True
    for v in unk:
        if v.key in single:
            x = v.sym
            g = G[v.key]
            found = None
            for (w, init2, g2, x2, n2, F2) in ex.folds:
                if w != v.w:
                    continue
                if not same_or_valid(ex, s0, iv(ex, v), init2):
                    continue
                gg = z3.substitute(g2, (x2, x), (n2, n))
                if gg.eq(g) or ex.decide(s0, gg == g):
                    found = F2
                    break
            if found is None:
                found = ex.freshf(v.w, 'F')
                ex.folds.append((v.w, iv(ex, v), g, x, n, found))
            v.F = found
    rest = [v for v in unk if v.key not in single]
    if rest:
        ok = None
        for ent in getattr(ex, 'sysfolds', []):
            if len(ent) != len(rest):
                continue
            import itertools
            for perm in itertools.permutations(ent):
                if any(a.w != e[0] or not same_or_valid(ex, s0, iv(ex, a), e[1]) for a, e in zip(rest, perm)):
                    continue
                sub = [(e[3], a.sym) for a, e in zip(rest, perm)] + [(perm[0][4], n)]
                # dependence on single-variable recurrences
                good = True
                for a, e in zip(rest, perm):
                    gg = z3.substitute(e[2], *sub)
                    ga = z3.substitute(G[a.key], *[(v.sym, v.F(n)) for v in unk if v.key in single])
                    if not (gg.eq(ga) or ex.decide(s0, gg == ga)):
                        good = False
                        break
                if good:
                    ok = perm
                    break
            if ok:
                break
        if ok:
            for a, e in zip(rest, ok):
                a.F = e[5]
        else:
            ent = []
            for a in rest:
                a.F = ex.freshf(a.w, 'F')
                ga = z3.substitute(G[a.key], *[(v.sym, v.F(n)) for v in unk if v.key in single])
                ent.append((a.w, iv(ex, a), ga, a.sym, n, a.F))
            if not hasattr(ex, 'sysfolds'):
                ex.sysfolds = []
            ex.sysfolds.append(ent)
    allsub = [(v.sym, v.F) for v in unk]
    for v in unk:
        g = G[v.key]

        def Gf(m, g=g):
            return z3.substitute(g, (n, m), *[(s, F(m)) for s, F in allsub]) if True else None
        v.G = Gf


def same_or_valid(ex, s0, a, b):
    if a.eq(b):
        return True
    return ex.decide(s0, a == b)


def solve_eq(c, n):
    """c is (an equality) with lhs-rhs affine in n: the n that solves it"""
    neg = False
    while z3.is_not(c):
        c = c.arg(0)
        neg = not neg
    if neg and not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DISTINCT):
        return None
    if not (z3.is_eq(c) or c.decl().kind() == z3.Z3_OP_DISTINCT) or not z3.is_bv(c.arg(0)):
        return None
    l, r = c.arg(0), c.arg(1)
    w = l.size()
    d = l - r
    d0 = z3.simplify(z3.substitute(d, (n, bv(0))))
    c1 = z3.simplify(z3.substitute(d, (n, bv(1))) - d0)
    if not z3.is_bv_value(c1) or c1.as_long() == 0 or w > 64:
        return None
    k = c1.as_long()
    if not valid(d == (d0 + nw(n, w) * bv(k, w))):
        return None
    k = k if k < 1 << (w - 1) else k - (1 << w)
    num = d0 if k < 0 else -d0
    a = abs(k)
    q = z3.LShR(num, bv(a.bit_length() - 1, w)) if is_pow2(a) else z3.UDiv(num, bv(a, w))
    q = z3.simplify(q)
    return q if w == 64 else z3.ZeroExt(64 - w, q)
