"""Region contents: a persistent functional byte memory.

A region's content is a chain of layers (newest first).  Reads walk the chain and
produce a quantifier-free term; nothing is ever approximated here."""
import z3
from .bv import *


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return f"Ptr({self.r}+{self.off})"


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"&{self.name}"


class Layer:
    __slots__ = ('k', 'parent', 'a', 'b', 'c', 'd')

    def __init__(self, k, parent, a=None, b=None, c=None, d=None):
        self.k, self.parent, self.a, self.b, self.c, self.d = k, parent, a, b, c, d


# layer kinds
#  uninit: a=uid                      fresh cells (deterministic per offset via UF)
#  zero
#  uf    : a=z3 function (BV64->BV 8w), b=w, c=callback(mem_ctx, cell_off, value) or None
#  dict  : a={off:(n,val)}
#  store : a=off b=n c=val
#  copy  : a=doff b=len c=src layer d=soff
#  fill  : a=doff b=len c=byte
#  havoc : a=z3 function w-cells, b=w, c=callback


def mk_store(layer, off, n, v):
    if isinstance(off, int):
        off &= M64
        if layer.k == 'dict' and len(layer.a) < 96:
            d = dict(layer.a)
            _carve(d, off, n)
            d[off] = (n, v)
            return Layer('dict', layer.parent, d)
        return Layer('dict', layer, {off: (n, v)})
    if layer.k == 'store' and layer.b == n and same(layer.a, off):
        layer = layer.parent
    return Layer('store', layer, off, n, v)


def _carve(d, off, n):
    ex = d.get(off)
    if ex is not None and ex[0] == n:
        return
    for o in list(d):
        m, v = d[o]
        if o < off + n and off < o + m:
            del d[o]
            if o >= off and o + m <= off + n:
                continue
            vi = None
            for b in range(m):
                if not (off <= o + b < off + n):
                    if vi is None:
                        vi = as_int(v, m * 8)
                    d[o + b] = (1, extract_bytes(vi, m, b, 1))


_as_int_hook = [None]


def as_int(v, bits):
    if isinstance(v, (Ptr, FnPtr)):
        return _as_int_hook[0](v)
    if isinstance(v, bool):
        return int(v)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
    return v


class Reader:
    """ctx: gives alignment knowledge and read callbacks (assumption instantiation)"""

    def __init__(self, note=None, decide=None):
        self.note = note      # note(callback, off, value)
        self.decide = decide  # decide(boolexpr) -> True/False/None via solver

    def rd(self, L, off, n, depth=0):
        while True:
            k = L.k
            if k == 'dict':
                d = L.a
                if isinstance(off, int):
                    hit = d.get(off)
                    if hit is not None and hit[0] == n:
                        return hit[1]
                    ov = [(o, m, v) for o, (m, v) in d.items() if o < off + n and off < o + m]
                    if not ov:
                        L = L.parent
                        continue
                    if len(ov) == 1 and ov[0][0] <= off and off + n <= ov[0][0] + ov[0][1]:
                        o, m, v = ov[0]
                        return extract_bytes(as_int(v, 8 * m), m, off - o, n)
                    return self.bytewise(L, off, n)
                # symbolic offset over concrete cells
                al = tz(off)
                cases = []
                for o, (m, v) in d.items():
                    if m == n and (o % n == 0 and (1 << al) % n == 0 and is_pow2(n)):
                        cases.append((off == bv(o), as_int(v, 8 * m)))
                    elif m > n and m % n == 0 and is_pow2(n) and o % n == 0 and (1 << al) % n == 0:
                        vi = as_int(v, 8 * m)
                        for q in range(m // n):
                            cases.append((off == bv(o + q * n), extract_bytes(vi, m, q * n, n)))
                    elif n == 1:
                        vi = as_int(v, 8 * m)
                        for q in range(m):
                            cases.append((off == bv(o + q), extract_bytes(vi, m, q, 1)))
                    else:
                        return self.bytewise(L, off, n)
                base = as_int(self.rd(L.parent, off, n), 8 * n)
                r = tobv(base, 8 * n)
                for c, v in cases:
                    r = z3.If(c, tobv(v, 8 * n), r)
                return r
            if k == 'store':
                o, m, v = L.a, L.b, L.c
                d = diff(off, o)
                if isinstance(d, int):
                    ds = d if d < 1 << 63 else d - (1 << 64)
                    if ds == 0 and n == m:
                        return v
                    if ds >= m or ds <= -n:
                        L = L.parent
                        continue
                    if ds >= 0 and ds + n <= m:
                        return extract_bytes(as_int(v, 8 * m), m, ds, n)
                    return self.bytewise(L, off, n)
                if m == n and is_pow2(n) and (1 << tz(d)) % n == 0:
                    p = self.rd(L.parent, off, n)
                    return z3.If(d == 0, tobv(as_int(v, 8 * n), 8 * n), tobv(as_int(p, 8 * n), 8 * n))
                if m > n and is_pow2(n) and m % n == 0 and (1 << tz(d)) % n == 0:
                    r = tobv(as_int(self.rd(L.parent, off, n), 8 * n), 8 * n)
                    vi = as_int(v, 8 * m)
                    for q in range(m // n):
                        r = z3.If(d == bv(q * n), tobv(extract_bytes(vi, m, q * n, n), 8 * n), r)
                    return r
                if n == 1:
                    r = tobv(as_int(self.rd(L.parent, off, 1), 8), 8)
                    vi = as_int(v, 8 * m)
                    for q in range(m):
                        r = z3.If(d == bv(q), tobv(extract_bytes(vi, m, q, 1), 8), r)
                    return r
                if n > 1 and m != n and self.decide is not None and \
                        self.decide(z3.And(z3.UGE(d, bv(m)), z3.ULE(d, bv(-n & M64)))):
                    L = L.parent  # the store does not overlap
                    continue
                if m == n and self.decide is not None and \
                        self.decide(z3.Or(d == 0, z3.And(z3.UGE(d, bv(n)), z3.ULE(d, bv(-n & M64))))):
                    p = self.rd(L.parent, off, n)
                    return z3.If(d == 0, tobv(as_int(v, 8 * n), 8 * n), tobv(as_int(p, 8 * n), 8 * n))
                return self.bytewise(L, off, n)
            if k in ('copy', 'fill'):
                o, ln = L.a, L.b
                d = diff(off, o)
                if isinstance(d, int) and isinstance(ln, int):
                    ds = d if d < 1 << 63 else d - (1 << 64)
                    if ds >= ln or ds <= -n:
                        L = L.parent
                        continue
                    if ds >= 0 and ds + n <= ln:
                        if k == 'fill':
                            return rep_byte(L.c, n)
                        off = add(L.d, ds)
                        L = L.c
                        continue
                    return self.bytewise(L, off, n)
                inside = z3.And(z3.ULE(bv(n), tobv(ln, 64)), z3.ULE(tobv(d, 64), tobv(ln, 64) - bv(n))) if n > 1 else \
                    z3.ULT(tobv(d, 64), tobv(ln, 64))
                dec = self.decide(inside) if self.decide else None
                if dec is True:
                    if k == 'fill':
                        return rep_byte(L.c, n)
                    off = add(L.d, d)
                    L = L.c
                    continue
                ok = n == 1 or (is_pow2(n) and (1 << min(tz(d), tz(ln))) % n == 0)
                if not ok and self.decide is not None:
                    dd, ll = tobv(d, 64), tobv(ln, 64)
                    ok = self.decide(z3.Or(inside, z3.And(z3.UGE(dd, ll), z3.ULE(dd, bv(-n & M64)))))
                if ok:
                    outside = self.decide(z3.Not(inside)) if self.decide else None
                    if outside is True:
                        L = L.parent
                        continue
                    x = rep_byte(L.c, n) if k == 'fill' else self.rd(L.c, add(L.d, d), n)
                    p = self.rd(L.parent, off, n)
                    return z3.If(inside, tobv(as_int(x, 8 * n), 8 * n), tobv(as_int(p, 8 * n), 8 * n))
                return self.bytewise(L, off, n)
            if k == 'uf':
                f, w, cb = L.a, L.b, L.c
                if w == n and (n == 1 or (1 << tz(off)) % w == 0 or self._aligned(off, w)):
                    v = f(tobv(off, 64))
                    if cb and self.note:
                        self.note(cb, off, v)
                    return v
                if n > w and n % w == 0 and (w == 1 or (1 << tz(off)) % w == 0):
                    parts = [tobv(as_int(self.rd(L, add(off, q * w), w), 8 * w), 8 * w) for q in range(n // w)]
                    return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
                if n < w and isinstance(off, int):
                    c = off // w * w
                    if off + n <= c + w:
                        return extract_bytes(self.rd(L, c, w), w, off - c, n)
                if n == 1 and is_pow2(w):
                    c = tobv(off, 64) & bv(M64 ^ (w - 1))
                    v = self.rd_cell(L, c, w)
                    sh = (tobv(off, 64) & bv(w - 1)) << 3
                    vv = z3.ZeroExt(64 - 8 * w, v) if w < 8 else v
                    return z3.Extract(7, 0, z3.LShR(vv, sh))
                if n < w and is_pow2(n) and is_pow2(w) and (1 << tz(off)) % n == 0:
                    c = tobv(off, 64) & bv(M64 ^ (w - 1))
                    v = self.rd_cell(L, c, w)
                    sh = (tobv(off, 64) & bv(w - 1)) << 3
                    vv = z3.ZeroExt(64 - 8 * w, v) if w < 8 else v
                    return z3.Extract(8 * n - 1, 0, z3.LShR(vv, sh))
                return self.bytewise(L, off, n)
            if k == 'zero':
                return 0
            if k == 'ite':
                if L.d is None:
                    L.d = {}
                key = (off if isinstance(off, int) else off.get_id(), n)
                h = L.d.get(key)
                if h is not None and self.note is None:
                    return h[1]
                x, y = self.rd(L.b, off, n), self.rd(L.c, off, n)
                if x is y or (isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r and same(x.off, y.off)):
                    r = x
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r and x.r is not None:
                    r = Ptr(x.r, z3.If(L.a, tobv(x.off, 64), tobv(y.off, 64)))
                else:
                    xi, yi = tobv(as_int(x, 8 * n), 8 * n), tobv(as_int(y, 8 * n), 8 * n)
                    r = x if xi.eq(yi) else z3.If(L.a, xi, yi)
                L.d[key] = (off, r)
                return r
            if k == 'elem':
                from .loops import rd_elem
                return rd_elem(self, L, off, n)
            raise NotImplementedError(k)

    def _aligned(self, off, w):
        return bool(self.decide and self.decide(z3.Extract(w.bit_length() - 2, 0, tobv(off, 64)) == 0))

    def rd_cell(self, L, off, w):
        v = L.a(off)
        if L.c and self.note:
            self.note(L.c, off, v)
        return v

    def bytewise(self, L, off, n):
        if n == 1:
            raise NotImplementedError("bytewise")
        parts = [tobv(as_int(self.rd(L, add(off, q), 1), 8), 8) for q in range(n)]
        return z3.simplify(z3.Concat(*reversed(parts)))


def rep_byte(b, n):
    if isinstance(b, int):
        return int.from_bytes(bytes([b]) * n, 'little')
    b = tobv(b, 8)
    return z3.Concat(*([b] * n)) if n > 1 else b


def cells(L, off, ln):
    """partition of [off,off+ln) (concrete) following the newest stored cells"""
    out, p = [], off
    while p < off + ln:
        n = 0
        q = L
        while q is not None:
            if q.k == 'dict':
                h = q.a.get(p)
                if h is not None:
                    n = h[0]
                    break
                if any(o < p + 1 and p < o + m for o, (m, _) in q.a.items()):
                    n = 1
                    break
            elif q.k == 'uf':
                n = q.b if p % q.b == 0 else 1
                break
            elif q.k == 'zero':
                n = 8 if p % 8 == 0 else (4 if p % 4 == 0 else 1)
                break
            elif q.k == 'copy' and isinstance(q.a, int) and isinstance(q.b, int) and isinstance(q.d, int):
                if q.a <= p < q.a + q.b:
                    cs = cells(q.c, q.d + (p - q.a), min(8, q.a + q.b - p))
                    n = cs[0][1]
                    break
            else:
                n = 8 if (p % 8 == 0 and p + 8 <= off + ln) else (4 if p % 4 == 0 and p + 4 <= off + ln else 1)
                break
            q = q.parent
        if n == 0:
            n = 1
        # do not run over a cell of a newer layer or over the end
        while n > 1 and (p + n > off + ln or _starts_inside(L, p, n)):
            n //= 2 if n % 2 == 0 else n
        out.append((p, n))
        p += n
    return out


def _starts_inside(L, p, n):
    q = L
    while q is not None and q.k == 'dict':
        h = q.a.get(p)
        if h is not None and h[0] == n:
            return False
        for o, (m, _) in q.a.items():
            if p < o < p + n or (o < p < o + m) or (o == p and m != n):
                return True
        q = q.parent
    return False
