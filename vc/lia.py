"""Second view of a query: bit vectors as integers with explicit wrap-around.

Every term is either translated exactly (linear operations, with a fresh quotient where a
result may wrap) or replaced by an unknown of the same range; so `unsat` here implies
`unsat` of the bit-vector query.  Other answers mean nothing."""
import z3

Z = z3
FRESH = [0]


class Lia:
    def __init__(self):
        self.memo = {}
        self.bmemo = {}
        self.keep = []
        self.sides = []      # z3 bool
        self.solver = z3.SolverFor('QF_UFLIA')
        self.stack = []      # (source expr)
        self.funs = {}

    # ------------------------------------------------------------ helpers
    def fresh(self, nm='q'):
        FRESH[0] += 1
        return z3.Int(f"{nm}?{FRESH[0]}")

    def side(self, c):
        self.sides.append(c)
        return len(self.sides) - 1

    def wrap(self, t, lo, hi, w, deps):
        """t reduced modulo 2^w"""
        M = 1 << w
        ql, qh = lo >> w, hi >> w
        if ql == qh:
            return (t - ql * M if ql else t), lo - ql * M, hi - ql * M, deps
        q = self.fresh()
        x = t - M * q
        s = self.side(z3.And(x >= 0, x < M, q >= ql, q <= qh))
        return x, 0, M - 1, deps | {s}

    def var(self, e, w):
        x = self.fresh('v')
        s = self.side(z3.And(x >= 0, x < (1 << w)))
        return x, 0, (1 << w) - 1, frozenset({s})

    # ------------------------------------------------------------ terms
    def raw(self, e):
        """an integer congruent to e modulo 2^w: (term, lo, hi, deps)"""
        k = e.decl().kind()
        w = e.size()
        if k == Z.Z3_OP_BNUM:
            v = e.as_long()
            if v >= 1 << (w - 1):
                v -= 1 << w
            return v, v, v, frozenset()
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB, Z.Z3_OP_BNEG, Z.Z3_OP_BMUL, Z.Z3_OP_SIGN_EXT, Z.Z3_OP_BSHL, Z.Z3_OP_BNOT):
            key = ('r', e.get_id())
            h = self.memo.get(key)
            if h is None:
                h = self.raw2(e, k, w)
                self.memo[key] = h
                self.keep.append(e)
            return h
        return self.norm(e)

    def raw2(self, e, k, w):
        big = 1 << (w + 24)
        if k == Z.Z3_OP_BADD:
            t, lo, hi, d = 0, 0, 0, frozenset()
            for c in e.children():
                a, l, h, dd = self.raw(c)
                t, lo, hi, d = t + a, lo + l, hi + h, d | dd
            if hi - lo < big:
                return t, lo, hi, d
            return self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_BSUB:
            t, lo, hi, d = self.raw(e.arg(0))
            for c in e.children()[1:]:
                a, l, h, dd = self.raw(c)
                t, lo, hi, d = t - a, lo - h, hi - l, d | dd
            if hi - lo < big:
                return t, lo, hi, d
            return self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_BNEG:
            t, lo, hi, d = self.raw(e.arg(0))
            return -t, -hi, -lo, d
        if k == Z.Z3_OP_BNOT:
            t, lo, hi, d = self.raw(e.arg(0))
            return -t - 1, -hi - 1, -lo - 1, d
        if k == Z.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() < w:
            c = 1 << e.arg(1).as_long()
            t, lo, hi, d = self.raw(e.arg(0))
            t, lo, hi = t * c, lo * c, hi * c
            return (t, lo, hi, d) if hi - lo < big else self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_BMUL and e.num_args() == 2 and (z3.is_bv_value(e.arg(0)) or z3.is_bv_value(e.arg(1))):
            c, x = (e.arg(0), e.arg(1)) if z3.is_bv_value(e.arg(0)) else (e.arg(1), e.arg(0))
            c = c.as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            t, lo, hi, d = self.raw(x)
            if (hi - lo) * abs(c) >= big:
                t, lo, hi, d = self.norm(x)
            t, lo, hi = t * c, min(lo * c, hi * c), max(lo * c, hi * c)
            return (t, lo, hi, d) if hi - lo < big else self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_SIGN_EXT:
            return self.signed(e.arg(0))
        return self.var(e, w)

    def signed(self, x):
        key = ('s', x.get_id())
        h = self.memo.get(key)
        if h is not None:
            return h
        w = x.size()
        M, H = 1 << w, 1 << (w - 1)
        t, lo, hi, d = self.raw(x)
        # congruent value reduced to [-H, H)
        r = self.wrap(t + H, lo + H, hi + H, w, d)
        r = (r[0] - H, r[1] - H, r[2] - H, r[3])
        self.memo[key] = r
        self.keep.append(x)
        return r

    def norm(self, e):
        key = e.get_id()
        h = self.memo.get(key)
        if h is None:
            h = self.norm2(e)
            self.memo[key] = h
            self.keep.append(e)
        return h

    def divmod(self, t, lo, hi, d, c):
        """floor(t / c) for t >= 0"""
        if isinstance(t, int):
            return t // c, t // c, t // c, d
        q = self.fresh()
        s = self.side(z3.And(c * q <= t, t < c * q + c, q >= lo // c, q <= hi // c))
        return q, lo // c, hi // c, d | {s}

    def norm2(self, e):
        k = e.decl().kind()
        w = e.size()
        M = 1 << w
        if k == Z.Z3_OP_BNUM:
            v = e.as_long()
            return v, v, v, frozenset()
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB, Z.Z3_OP_BNEG, Z.Z3_OP_BMUL, Z.Z3_OP_SIGN_EXT, Z.Z3_OP_BSHL, Z.Z3_OP_BNOT):
            t, lo, hi, d = self.raw(e)
            return self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_UNINTERPRETED:
            n = e.num_args()
            if n == 0:
                x = z3.Int('i.' + e.decl().name())
                s = self.side(z3.And(x >= 0, x < M))
                return x, 0, M - 1, frozenset({s})
            if all(z3.is_bv(a) for a in e.children()):
                nm = e.decl().name()
                f = self.funs.get(nm)
                if f is None:
                    f = self.funs[nm] = z3.Function('i.' + nm, *([z3.IntSort()] * (n + 1)))
                d = frozenset()
                args = []
                for a in e.children():
                    t, lo, hi, dd = self.norm(a)
                    args.append(z3.IntVal(t) if isinstance(t, int) else t)
                    d = d | dd
                x = f(*args)
                s = self.side(z3.And(x >= 0, x < M))
                return x, 0, M - 1, d | {s}
            return self.var(e, w)
        if k == Z.Z3_OP_ZERO_EXT:
            return self.norm(e.arg(0))
        if k == Z.Z3_OP_CONCAT:
            t, lo, hi, d = 0, 0, 0, frozenset()
            for c in e.children():
                a, l, h, dd = self.norm(c)
                s = 1 << c.size()
                t, lo, hi, d = t * s + a, lo * s + l, hi * s + h, d | dd
            return t, lo, hi, d
        if k == Z.Z3_OP_EXTRACT:
            hb, lb = e.params()
            x = e.arg(0)
            if lb == 0:
                t, lo, hi, d = self.raw(x)
                return self.wrap(t, lo, hi, w, d)
            t, lo, hi, d = self.norm(x)
            t, lo, hi, d = self.divmod(t, lo, hi, d, 1 << lb)
            if hb == x.size() - 1:
                return t, lo, hi, d
            return self.wrap(t, lo, hi, w, d)
        if k == Z.Z3_OP_BLSHR and z3.is_bv_value(e.arg(1)):
            c = e.arg(1).as_long()
            if c >= w:
                return 0, 0, 0, frozenset()
            t, lo, hi, d = self.norm(e.arg(0))
            return self.divmod(t, lo, hi, d, 1 << c)
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I) and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
            c = e.arg(1).as_long()
            t, lo, hi, d = self.norm(e.arg(0))
            q = self.divmod(t, lo, hi, d, c)
            if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I):
                return q
            return t - c * q[0], 0, min(c - 1, hi), q[3]
        if k == Z.Z3_OP_BAND and e.num_args() == 2 and (z3.is_bv_value(e.arg(0)) or z3.is_bv_value(e.arg(1))):
            c, x = (e.arg(0), e.arg(1)) if z3.is_bv_value(e.arg(0)) else (e.arg(1), e.arg(0))
            c = c.as_long()
            if c & (c + 1) == 0:
                t, lo, hi, d = self.raw(x)
                return self.wrap(t, lo, hi, c.bit_length(), d)
            n = M - 1 - c
            if n & (n + 1) == 0:
                t, lo, hi, d = self.norm(x)
                q = self.divmod(t, lo, hi, d, n + 1)
                return q[0] * (n + 1), q[1] * (n + 1), q[2] * (n + 1), q[3]
            return self.var(e, w)
        if k == Z.Z3_OP_ITE:
            c, dc = self.boolean(e.arg(0))
            a, b = self.norm(e.arg(1)), self.norm(e.arg(2))
            if isinstance(a[0], int) and isinstance(b[0], int):
                t = z3.If(c, z3.IntVal(a[0]), z3.IntVal(b[0]))
            else:
                t = z3.If(c, a[0] if not isinstance(a[0], int) else z3.IntVal(a[0]), b[0] if not isinstance(b[0], int) else z3.IntVal(b[0]))
            return t, min(a[1], b[1]), max(a[2], b[2]), dc | a[3] | b[3]
        return self.var(e, w)

    # ------------------------------------------------------------ formulas
    def boolean(self, e):
        key = e.get_id()
        h = self.bmemo.get(key)
        if h is None:
            h = self.boolean2(e)
            self.bmemo[key] = h
            self.keep.append(e)
        return h

    def boolean2(self, e):
        k = e.decl().kind()
        if k == Z.Z3_OP_TRUE:
            return z3.BoolVal(True), frozenset()
        if k == Z.Z3_OP_FALSE:
            return z3.BoolVal(False), frozenset()
        if k in (Z.Z3_OP_AND, Z.Z3_OP_OR, Z.Z3_OP_NOT, Z.Z3_OP_IMPLIES, Z.Z3_OP_XOR) or \
                (k == Z.Z3_OP_ITE) or (k in (Z.Z3_OP_EQ, Z.Z3_OP_DISTINCT, Z.Z3_OP_IFF) and z3.is_bool(e.arg(0))):
            cs = [self.boolean(c) for c in e.children()]
            d = frozenset().union(*[c[1] for c in cs])
            c = [x[0] for x in cs]
            r = {Z.Z3_OP_AND: z3.And, Z.Z3_OP_OR: z3.Or, Z.Z3_OP_NOT: z3.Not, Z.Z3_OP_IMPLIES: z3.Implies,
                 Z.Z3_OP_XOR: z3.Xor, Z.Z3_OP_ITE: z3.If, Z.Z3_OP_EQ: lambda a, b: a == b,
                 Z.Z3_OP_IFF: lambda a, b: a == b, Z.Z3_OP_DISTINCT: z3.Distinct}[k](*c)
            return r, d
        if k in (Z.Z3_OP_EQ, Z.Z3_OP_DISTINCT) and z3.is_bv(e.arg(0)) and e.num_args() == 2:
            a, b = e.arg(0), e.arg(1)
            x, y = self.norm(a), self.norm(b)
            r = self.cmp(x[0] == y[0])
            return (r if k == Z.Z3_OP_EQ else z3.Not(r)), x[3] | y[3]
        if k in (Z.Z3_OP_ULEQ, Z.Z3_OP_ULT, Z.Z3_OP_UGEQ, Z.Z3_OP_UGT):
            x, y = self.norm(e.arg(0)), self.norm(e.arg(1))
            return self.cmp({Z.Z3_OP_ULEQ: lambda a, b: a <= b, Z.Z3_OP_ULT: lambda a, b: a < b,
                             Z.Z3_OP_UGEQ: lambda a, b: a >= b, Z.Z3_OP_UGT: lambda a, b: a > b}[k](x[0], y[0])), x[3] | y[3]
        if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT):
            x, y = self.signed(e.arg(0)), self.signed(e.arg(1))
            return self.cmp({Z.Z3_OP_SLEQ: lambda a, b: a <= b, Z.Z3_OP_SLT: lambda a, b: a < b,
                             Z.Z3_OP_SGEQ: lambda a, b: a >= b, Z.Z3_OP_SGT: lambda a, b: a > b}[k](x[0], y[0])), x[3] | y[3]
        if k == Z.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            return z3.Bool('b.' + e.decl().name()), frozenset()
        FRESH[0] += 1
        return z3.Bool(f"p?{FRESH[0]}"), frozenset()

    @staticmethod
    def cmp(r):
        return z3.BoolVal(r) if isinstance(r, bool) else r

    # ------------------------------------------------------------ queries
    def add(self, e):
        f, d = self.boolean(e)
        self.solver.add(f, *[self.sides[i] for i in d])

    def unsat(self, pc, extra, ms):
        i = 0
        st = self.stack
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.add(c)
            st.append(c)
        self.solver.push()
        self.solver.set('timeout', ms)
        for c in extra:
            self.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat
