import z3
M64 = (1 << 64) - 1


def is_pow2(n):
    return n > 0 and n & (n - 1) == 0


def bv(n, w=64):
    return z3.BitVecVal(n, w)


def tobv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def fold(e):
    """BV expr -> int when it is a numeral"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & M64
    if isinstance(b, int) and b & M64 == 0:
        return a
    if isinstance(a, int) and a & M64 == 0:
        return b
    return simp(tobv(a, 64) + tobv(b & M64 if isinstance(b, int) else b, 64))


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) or isinstance(b, int):
        return False
    return a.eq(b)


def diff(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M64
    return simp(tobv(a, 64) - tobv(b, 64))


def tz(e, depth=0):
    """lower bound on number of trailing zero bits"""
    if isinstance(e, int):
        return 64 if e == 0 else (e & -e).bit_length() - 1
    if depth > 12:
        return 0
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM:
        return tz(e.as_long())
    if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB or k == z3.Z3_OP_BOR or k == z3.Z3_OP_BXOR:
        return min(tz(c, depth + 1) for c in e.children())
    if k == z3.Z3_OP_BMUL:
        return min(64, sum(tz(c, depth + 1) for c in e.children()))
    if k == z3.Z3_OP_BAND:
        return max(tz(c, depth + 1) for c in e.children())
    if k == z3.Z3_OP_BNEG:
        return tz(e.arg(0), depth + 1)
    if k == z3.Z3_OP_BSHL:
        s = e.arg(1)
        t = tz(e.arg(0), depth + 1)
        return min(64, t + s.as_long()) if z3.is_bv_value(s) else t
    if k == z3.Z3_OP_CONCAT:
        t = 0
        for c in reversed(e.children()):
            x = tz(c, depth + 1) if not z3.is_bv_value(c) else (c.size() if c.as_long() == 0 else tz(c.as_long()))
            x = min(x, c.size())
            t += x
            if x < c.size():
                break
        return t
    if k == z3.Z3_OP_ITE:
        return min(tz(e.arg(1), depth + 1), tz(e.arg(2), depth + 1))
    if k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT:
        return min(tz(e.arg(0), depth + 1), e.arg(0).size()) if tz(e.arg(0), depth + 1) < e.arg(0).size() else 64
    return 0


def extract_bytes(v, total, lo, n):
    """bytes [lo,lo+n) of a little-endian total-byte value"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
    if lo == 0 and n == total:
        return v
    return fold(z3.simplify(z3.Extract(8 * (lo + n) - 1, 8 * lo, v)))


def lindec(e, coef=1, acc=None):
    """e (64 bit) as a linear combination modulo 2^64: {id: [term, coef]}, key None: constant"""
    acc = {} if acc is None else acc
    if isinstance(e, int):
        acc[None] = acc.get(None, 0) + coef * e
        return acc
    k = e.decl().kind()
    if k == z3.Z3_OP_BNUM:
        v = e.as_long()
        acc[None] = acc.get(None, 0) + coef * (v if v < 1 << 63 else v - (1 << 64))
    elif k == z3.Z3_OP_BADD:
        for c in e.children():
            lindec(c, coef, acc)
    elif k == z3.Z3_OP_BSUB:
        lindec(e.arg(0), coef, acc)
        for c in e.children()[1:]:
            lindec(c, -coef, acc)
    elif k == z3.Z3_OP_BNEG:
        lindec(e.arg(0), -coef, acc)
    elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        v = e.arg(0).as_long()
        lindec(e.arg(1), coef * (v if v < 1 << 63 else v - (1 << 64)), acc)
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.children()[-1]) and e.children()[-1].as_long() == 0 \
            and e.num_args() == 3 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
        # 0 ++ x ++ 0: a zero extended value times a power of two
        t, s = e.arg(1), e.children()[-1].size()
        lindec(z3.simplify(z3.ZeroExt(64 - t.size(), t)), coef << s, acc)
    else:
        x = acc.setdefault(e.get_id(), [e, 0])
        x[1] += coef
    return acc


def umax(e):
    """an upper bound of the unsigned value"""
    k = e.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        n = e.size()
        for c in e.children():
            if z3.is_bv_value(c) and c.as_long() == 0:
                n -= c.size()
            else:
                break
        return (1 << n) - 1
    if k == z3.Z3_OP_ZERO_EXT:
        return (1 << e.arg(0).size()) - 1
    if k == z3.Z3_OP_ITE:
        return max(umax(e.arg(1)), umax(e.arg(2)))
    if k == z3.Z3_OP_BNUM:
        return e.as_long()
    return (1 << e.size()) - 1


def exact_sdiv(a, b):
    """(quotient, condition) of a signed division by b>0 that is syntactically exact, or None.
    The quotient is right where the condition holds."""
    acc = lindec(a)
    c0 = acc.pop(None, 0)
    if c0 % b:
        return None
    q = bv((c0 // b) & M64)
    hi, lo, big = max(c0 // b, 0), min(c0 // b, 0), False
    for t, c in acc.values():
        if c == 0:
            continue
        if c > 1 << 63:
            c -= 1 << 64
        if c % b:
            return None
        c //= b
        m = umax(t)
        if c > 0:
            hi += c * m
        else:
            lo += c * m
        q = q + t * bv(c & M64)
    q = z3.simplify(q)
    lim = (1 << 63) // b
    if hi < lim and lo > -lim:
        return q, True
    return q, z3.And(q < bv(lim - 1), q > bv(-(lim - 1) & M64))
