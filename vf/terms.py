"""Hash-consed bit-vector terms with simplification, an interval analysis, and
two lowerings to SMT: to linear/non-linear integer arithmetic (exact: every
machine operation is translated modulo 2^w, the wrap being dropped only where
the interval analysis proves that it cannot happen) and to bit-vectors."""
import z3

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "w", "args", "val", "id", "_vars", "_iv", "_nat", "_fl")

    def __repr__(self):
        return show(self)


def show(t, d=6):
    if t.op == "c":
        return str(sgn(t.val, t.w)) if t.w > 1 else str(t.val)
    if t.op == "v":
        return t.val[0]
    if d == 0:
        return "#%d" % t.id
    if t.op == "lin":
        s = "+".join("%d*%s" % (sgn(c, t.w), show(a, d - 1)) for c, a in zip(t.val[1:], t.args))
        return "(%s+%d)" % (s, sgn(t.val[0], t.w))
    v = "" if t.val is None else str(t.val)
    return "%s%s%d(%s)" % (t.op, v, t.w, ",".join(show(a, d - 1) for a in t.args))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def _mk(op, w, args=(), val=None):
    k = (op, w, tuple(a.id for a in args), val)
    r = _tab.get(k)
    if r is None:
        r = T()
        r.op, r.w, r.args, r.val = op, w, tuple(args), val
        _cnt[0] += 1
        r.id = _cnt[0]
        r._vars = None
        r._iv = None
        r._nat = None
        r._fl = 0
        _tab[k] = r
    return r


def const(v, w):
    return _mk("c", w, (), v & ((1 << w) - 1))


def var(name, w, signed=False, lo=None, hi=None):
    """a variable; lo/hi: intrinsic bounds (as integers of the given signedness)"""
    if lo is None:
        lo = -(1 << (w - 1)) if signed else 0
    if hi is None:
        hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    return _mk("v", w, (), (name, signed, lo, hi))


TRUE = const(1, 1)
FALSE = const(0, 1)


def is_c(t):
    return t.op == "c"


def tvars(t):
    """Set of variable terms occurring in t."""
    if t._vars is not None:
        return t._vars
    stack = [t]
    while stack:
        x = stack[-1]
        if x._vars is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if a._vars is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "v":
            x._vars = frozenset((x,))
        elif x.op == "uf":
            s = frozenset((x,))
            for a in x.args:
                s |= a._vars
            x._vars = s
        else:
            s = frozenset()
            for a in x.args:
                if a._vars:
                    s = s | a._vars if s else a._vars
            x._vars = s
        stack.pop()
    return t._vars


# ---- intervals ----------------------------------------------------------------
def ivl(t):
    """interval of some integer congruent to t modulo 2^w (see nat)"""
    r = t._iv
    if r is None:
        r = t._iv = _ivl(t)
    return r


def nat(t):
    """(lo, hi, kind): the interval of the natural value of t, its unsigned
    value (kind u) or its signed value (kind s)"""
    r = t._nat
    if r is None:
        lo, hi = ivl(t)
        w = t.w
        if 0 <= lo and hi < (1 << w):
            r = (lo, hi, "u")
        elif w > 1 and -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            r = (lo, hi, "s")
        else:
            m = 1 << w
            # a constant number of wraps
            if lo // m == hi // m:
                k = lo // m
                r = (lo - k * m, hi - k * m, "u")
            elif w > 1 and (lo + m // 2) // m == (hi + m // 2) // m:
                k = (lo + m // 2) // m
                r = (lo - k * m, hi - k * m, "s")
            else:
                r = (0, m - 1, "u")
        t._nat = r
    return r


def uivl(t):
    lo, hi, k = nat(t)
    if k == "u":
        return lo, hi
    if hi < 0:
        m = 1 << t.w
        return lo + m, hi + m
    return 0, (1 << t.w) - 1


def sivl(t):
    lo, hi, k = nat(t)
    h = 1 << (t.w - 1)
    if hi < h:
        return lo, hi
    if lo >= h:
        return lo - 2 * h, hi - 2 * h
    return -h, h - 1


def _ivl(t):
    o, w = t.op, t.w
    if o == "c":
        return t.val, t.val
    if o == "v":
        return t.val[2], t.val[3]
    if o == "uf":
        if t.val[1]:
            return -(1 << (w - 1)), (1 << (w - 1)) - 1
        return 0, (1 << w) - 1
    if o == "lin":
        c = sgn(t.val[0], w)
        lo = hi = c
        for k, a in zip(t.val[1:], t.args):
            k = sgn(k, w)
            l, h, _ = nat(a)
            if k >= 0:
                lo, hi = lo + k * l, hi + k * h
            else:
                lo, hi = lo + k * h, hi + k * l
        return lo, hi
    if o == "mul":
        a, b = nat(t.args[0]), nat(t.args[1])
        ps = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
        return min(ps), max(ps)
    if o == "udiv":
        a, b = uivl(t.args[0]), uivl(t.args[1])
        if b[0] > 0:
            return a[0] // b[1], a[1] // b[0]
        return 0, (1 << w) - 1
    if o == "urem":
        a, b = uivl(t.args[0]), uivl(t.args[1])
        if b[0] > 0:
            return 0, min(a[1], b[1] - 1)
        return 0, (1 << w) - 1
    if o == "sdiv":
        a, b = sivl(t.args[0]), sivl(t.args[1])
        if b[0] > 0 or b[1] < 0:
            ps = [_tdiv(x, y) for x in a for y in b]
            lo, hi = min(ps), max(ps)
            if a[0] <= 0 <= a[1]:
                lo, hi = min(lo, 0), max(hi, 0)
            return lo, hi
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    if o == "srem":
        a, b = sivl(t.args[0]), sivl(t.args[1])
        m = max(abs(b[0]), abs(b[1])) - 1
        if m < 0:
            m = 0
        lo = 0 if a[0] >= 0 else max(a[0], -m)
        hi = 0 if a[1] <= 0 else min(a[1], m)
        return lo, hi
    if o == "and":
        return 0, min(uivl(t.args[0])[1], uivl(t.args[1])[1])
    if o in ("or", "xor") and w > 1:
        m = max(uivl(t.args[0])[1], uivl(t.args[1])[1])
        return 0, (1 << m.bit_length()) - 1
    if o == "lshr":
        a = uivl(t.args[0])
        if is_c(t.args[1]):
            return a[0] >> t.args[1].val, a[1] >> t.args[1].val
        return 0, a[1]
    if o == "ashr" and is_c(t.args[1]):
        a = sivl(t.args[0])
        return a[0] >> t.args[1].val, a[1] >> t.args[1].val
    if o == "zext":
        return uivl(t.args[0])
    if o == "sext":
        return sivl(t.args[0])
    if o == "trunc":
        a = nat(t.args[0])
        return a[0], a[1]
    if o == "ite":
        a, b = nat(t.args[1]), nat(t.args[2])
        if a[2] == b[2] or (a[1] < (1 << (w - 1)) and b[1] < (1 << (w - 1))):
            return min(a[0], b[0]), max(a[1], b[1])
        return 0, (1 << w) - 1
    return 0, (1 << w) - 1


def _split_lin(a, c):
    """a = c*A + B exactly over the integers (natural values), 0 <= B < c, if the
    intervals show it -> (A, B) as terms of a's width, or None"""
    if a.op != "lin":
        return None
    lo, hi = ivl(a)
    if not (0 <= lo and hi < (1 << a.w)):
        return None
    w = a.w
    c0 = sgn(a.val[0], w)
    A, B = {}, {}
    bl = bh = c0 % c
    for k, x in zip(a.val[1:], a.args):
        k = sgn(k, w)
        if k % c == 0:
            A[x] = k // c
            continue
        # split the coefficient as well: k = c*q + r is only useful when r = k
        B[x] = k
        l, h, _ = nat(x)
        if k >= 0:
            bl, bh = bl + k * l, bh + k * h
        else:
            bl, bh = bl + k * h, bh + k * l
    # move the constant so that the low part is in [0, c)
    j = bl // c
    if bh - j * c >= c or bl - j * c < 0:
        return None
    return (_from_lin(w, c0 // c + j, A), _from_lin(w, c0 % c - j * c, B))


def as_floor(t, d=6):
    """t == floor(m*b / D) over the integers, for the unsigned value of b.
    -> (b widened to 256 bits, m, D) or None"""
    if t._fl != 0:
        return t._fl
    r = _as_floor(t, d) if d else None
    t._fl = r
    return r


def _base(b):
    """b = g * b0 with b0 of content 1 -> (b0 in 256 bits, g)"""
    if nat(b)[2] != "u":
        return None
    z = zext(b, 256) if b.w < 256 else b
    if z.op == "lin":
        import math
        g = sgn(z.val[0], 256)
        for k in z.val[1:]:
            g = math.gcd(g, sgn(k, 256))
        lo, hi = ivl(z)
        if g > 1 and lo >= 0:
            q = _from_lin(256, sgn(z.val[0], 256) // g, {x: sgn(k, 256) // g for k, x in zip(z.val[1:], z.args)})
            if nat(q)[2] == "u":
                return q, g
    return z, 1


def _as_floor(t, d):
    if t.op == "zext":
        return as_floor(t.args[0], d - 1)
    if t.op == "trunc":
        i = t.args[0]
        if uivl(i)[1] < (1 << t.w):
            return as_floor(i, d - 1)
        return None
    if t.op == "lshr" and is_c(t.args[1]):
        x, s = t.args[0], t.args[1].val
        r = as_floor(x, d - 1)
        if r is None:
            b = _base(x)
            if b is None:
                return None
            r = (b[0], b[1], 1)
        return (r[0], r[1], r[2] << s)
    if t.op == "udiv" and is_c(t.args[1]):
        x = t.args[0]
        r = as_floor(x, d - 1)
        if r is None:
            b = _base(x)
            if b is None:
                return None
            r = (b[0], b[1], 1)
        return (r[0], r[1], r[2] * t.args[1].val)
    if t.op == "urem" and is_c(t.args[1]) and t.args[0].op == "udiv" and is_c(t.args[0].args[1]):
        # floor(n/p) mod q == floor((n mod pq)/p)
        n, p, q = t.args[0].args[0], t.args[0].args[1].val, t.args[1].val
        if p * q < (1 << t.w):
            b = _base(urem(n, const(p * q, t.w)))
            if b is not None:
                return (b[0], b[1], p)
        return None
    if t.op == "lin" and t.val[0] == 0 and len(t.args) == 2 and t.val[1:] == (1, 1):
        for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
            h = y
            if h.op != "lshr" or not is_c(h.args[1]) or h.args[1].val != 1:
                continue
            n = add(h.args[0], x)
            f = as_floor(x, d - 1)
            b = _base(n)
            if f is None or b is None or f[0] is not b[0] or f[1] > b[1] * f[2]:
                continue
            # x <= n, so x + floor((n-x)/2) = floor((n+x)/2)
            return (b[0], b[1] * f[2] + f[1], 2 * f[2])
    return None


def _magic(t):
    """division by multiplication: floor(m*b/D) == floor(b/d) whenever
    e = m*d - D satisfies 0 <= e and e*b < D"""
    f = as_floor(t)
    if f is None:
        return t
    b, m, k = f
    if k == 1 or m <= 1:
        return t
    d = -(-k // m)
    e = m * d - k
    if e * uivl(b)[1] < k and d < (1 << 200):
        r = udiv(b, const(d, 256))
        if t.w < 256:
            r = trunc(r, t.w)
        elif t.w > 256:
            r = zext(r, t.w)
        return r
    return t


# ---- linear combinations -------------------------------------------------
_noremfold = [False]


def _lin_parts(t):
    """-> (const, {atom: coef})"""
    if t.op == "c":
        return t.val, {}
    if t.op == "lin":
        return t.val[0], dict(zip(t.args, t.val[1:]))
    return 0, {t: 1}


def _from_lin(w, c, d):
    m = (1 << w) - 1
    c &= m
    items = [(a, k & m) for a, k in d.items() if k & m]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if not _noremfold[0]:
        for a, k in items:
            if a.op == "udiv" and is_c(a.args[1]) and (k + a.args[1].val) & m == 0:
                x = a.args[0]
                xc, xd = _lin_parts(x)
                if all(d.get(y, 0) & m == q & m for y, q in xd.items()) and xd:
                    d2 = {y: q for y, q in d.items() if y not in xd and y is not a}
                    r = urem(x, a.args[1])
                    rc, rd = _lin_parts(r)
                    for y, q in rd.items():
                        d2[y] = d2.get(y, 0) + q
                    return _from_lin(w, c - xc + rc, d2)
    for b, kb in items:
        if b.op == "zext" and (b.args[0].op == "trunc" or len(items) == 2):
            lo = b.args[0]
            for a, ka in items:
                if a is not b and a.op in ("zext", "sext") and a.args[0].op == "trunc" and (kb << lo.w) & m == ka \
                        and a.args[0].w + lo.w <= w:
                    r = _rejoin(a.args[0], lo)
                    if r is not None:
                        d2 = dict(items)
                        del d2[a], d2[b]
                        r = zext(r, w) if a.op == "zext" else sext(r, w)
                        rc, rd = _lin_parts(r)
                        for y, q in rd.items():
                            d2[y] = d2.get(y, 0) + q * kb
                        return _from_lin(w, c + rc * kb, d2)
    items.sort(key=lambda p: p[0].id)
    return _mk("lin", w, [a for a, _ in items], (c,) + tuple(k for _, k in items))


def lincomb(w, parts, c=0):
    d = {}
    for k, t in parts:
        c0, d0 = _lin_parts(t)
        c += k * c0
        for a, q in d0.items():
            d[a] = d.get(a, 0) + k * q
    return _from_lin(w, c, d)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.val + b.val, a.w)
    if a.w == 1:
        return xor(a, b)
    return lincomb(a.w, ((1, a), (1, b)))


def sub(a, b):
    if a is b:
        return const(0, a.w)
    if a.w == 1:
        return xor(a, b)
    return lincomb(a.w, ((1, a), (-1, b)))


def neg(a):
    return lincomb(a.w, ((-1, a),))


def mul(a, b):
    if a.w == 1:
        return band(a, b)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        return lincomb(a.w, ((b.val, a),))
    # distribute constants out
    if a.id > b.id:
        a, b = b, a
    if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite" and is_c(b.args[1]) and is_c(b.args[2]):
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    return _mk("mul", a.w, (a, b))


def _tdiv(x, y):
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def udiv(a, b):
    if b.op == "c" and b.val:
        if a.op == "c":
            return const(a.val // b.val, a.w)
        if b.val == 1:
            return a
        lo, hi = uivl(a)
        if lo // b.val == hi // b.val:
            return const(lo // b.val, a.w)
        sp = _split_lin(a, b.val)
        if sp is not None:
            return sp[0]
        if a.op == "udiv" and is_c(a.args[1]):
            d = a.args[1].val * b.val
            return udiv(a.args[0], const(d, a.w)) if d < (1 << a.w) else const(0, a.w)
        if a.op == "urem" and is_c(a.args[1]) and a.args[1].val % b.val == 0:
            return urem(udiv(a.args[0], b), const(a.args[1].val // b.val, a.w))
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    if b.op == "c" and b.val:
        if a.op == "c":
            return const(a.val % b.val, a.w)
        if b.val == 1:
            return const(0, a.w)
        if b.val & (b.val - 1) == 0:
            return band(a, const(b.val - 1, a.w))
        lo, hi = uivl(a)
        if lo // b.val == hi // b.val:
            return sub(a, const(lo // b.val * b.val, a.w))
        sp = _split_lin(a, b.val)
        if sp is not None:
            return sp[1]
        if a.op == "urem" and is_c(a.args[1]) and a.args[1].val % b.val == 0:
            return urem(a.args[0], b)
    return _mk("urem", a.w, (a, b))


def sdiv(a, b):
    if b.op == "c" and b.val:
        if a.op == "c":
            return const(_tdiv(sgn(a.val, a.w), sgn(b.val, b.w)), a.w)
        if b.val == 1:
            return a
        if sgn(b.val, b.w) > 0 and sivl(a)[0] >= 0:
            return udiv(a, b)
    return _mk("sdiv", a.w, (a, b))


def srem(a, b):
    if b.op == "c" and b.val and a.op == "c":
        x, y = sgn(a.val, a.w), sgn(b.val, b.w)
        return const(x - y * _tdiv(x, y), a.w)
    if b.op == "c" and sgn(b.val, b.w) > 0 and sivl(a)[0] >= 0:
        return urem(a, b)
    return _mk("srem", a.w, (a, b))


def bnot(a):
    if a.w == 1:
        return lnot(a)
    # ~a = -a-1
    return lincomb(a.w, ((-1, a),), -1)


def lnot(a):
    if a.op == "c":
        return const(1 - a.val, 1)
    if a.op == "not":
        return a.args[0]
    if a.op == "ult":
        return _mk("ule", 1, (a.args[1], a.args[0]))
    if a.op == "ule":
        return _mk("ult", 1, (a.args[1], a.args[0]))
    if a.op == "slt":
        return _mk("sle", 1, (a.args[1], a.args[0]))
    if a.op == "sle":
        return _mk("slt", 1, (a.args[1], a.args[0]))
    return _mk("not", 1, (a,))


def band(a, b):
    w = a.w
    m = (1 << w) - 1
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return const(a.val & b.val, w)
        if b.val == 0:
            return b
        if b.val == m:
            return a
        if a.op == "zext" and w > 1:
            iw = a.args[0].w
            return zext(band(a.args[0], const(b.val, iw)), w)
        if b.val & (b.val + 1) == 0:  # low mask
            if uivl(a)[1] <= b.val:
                return a
            k = b.val.bit_length()
            if a.op == "lin" or a.op == "v":
                c0, d = _lin_parts(a)
                d2 = {x: kk for x, kk in d.items() if kk & b.val and not _addr_al(x) > b.val}
                if len(d2) != len(d):
                    return band(_from_lin(w, c0, d2), b)
            return zext(trunc(a, k), w)
    if a is b:
        return a
    if w == 1:
        if lnot(a) is b:
            return FALSE
        if b.op == "and" and (a is b.args[0] or a is b.args[1]):
            return b
        if a.op == "and" and (b is a.args[0] or b is a.args[1]):
            return a
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return zext(band(a.args[0], b.args[0]), w)
    if a.id > b.id and b.op != "c":
        a, b = b, a
    return _mk("and", w, (a, b))


def _addr_al(x):
    """alignment of an address variable"""
    if x.op == "v" and x.val[0].startswith("addr!"):
        return int(x.val[0].split("!")[2])
    return 0


def bor(a, b):
    w = a.w
    m = (1 << w) - 1
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return const(a.val | b.val, w)
        if b.val == 0:
            return a
        if b.val == m:
            return b
    if a is b:
        return a
    if w == 1:
        if lnot(a) is b:
            return TRUE
    else:
        if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
            return zext(bor(a.args[0], b.args[0]), w)
        if a.op == "zext" and a.args[0].w == 1 and b.op == "c" and b.val == 1:
            return b
        # disjoint or -> add
        if (ones_mask(a) & ones_mask(b)) == 0:
            return add(a, b)
    if a.id > b.id and b.op != "c":
        a, b = b, a
    return _mk("or", w, (a, b))


def xor(a, b):
    w = a.w
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "c":
            return const(a.val ^ b.val, w)
        if b.val == 0:
            return a
        if w == 1:
            return lnot(a)
        if b.val == (1 << w) - 1:
            return bnot(a)
    if a is b:
        return const(0, w)
    if w == 1:
        return lnot(eq(a, b))
    if a.op == "zext":
        iw = a.args[0].w
        if b.op == "zext" and b.args[0].w == iw:
            return zext(xor(a.args[0], b.args[0]), w)
        if b.op == "c" and b.val >> iw == 0:
            return zext(xor(a.args[0], const(b.val, iw)), w)
    if a.id > b.id and b.op != "c":
        a, b = b, a
    return _mk("xor", w, (a, b))


def ones_mask(t, d=8):
    """Over-approximation of the bits of t that may be one."""
    m = (1 << t.w) - 1
    if t.op == "c":
        return t.val
    if d == 0:
        return m
    if t.op == "zext":
        return ones_mask(t.args[0], d - 1)
    if t.op == "and":
        return ones_mask(t.args[0], d - 1) & ones_mask(t.args[1], d - 1)
    if t.op in ("or", "xor"):
        return ones_mask(t.args[0], d - 1) | ones_mask(t.args[1], d - 1)
    if t.op == "lin":
        if t.val[0] == 0 and len(t.args) == 1:
            k = t.val[1]
            tz = (k & -k).bit_length() - 1
            if k == 1 << tz:
                return (ones_mask(t.args[0], d - 1) << tz) & m
            return m & ~((1 << tz) - 1)
        # sum of items with disjoint masks
        acc = t.val[0]
        tz0 = t.w if not acc else (acc & -acc).bit_length() - 1
        for k, a in zip(t.val[1:], t.args):
            tz = (k & -k).bit_length() - 1
            tz0 = min(tz0, tz)
            mm = (ones_mask(a, d - 1) << tz) if k == 1 << tz else (m & ~((1 << tz) - 1))
            if acc is None or mm > m or mm & acc:
                acc = None
                continue
            acc |= mm
        if acc is not None:
            return acc
        return (1 << uivl(t)[1].bit_length()) - 1 & m & ~((1 << tz0) - 1)
    if t.op == "lshr" and is_c(t.args[1]):
        return ones_mask(t.args[0], d - 1) >> t.args[1].val
    if t.op == "ite":
        return ones_mask(t.args[1], d - 1) | ones_mask(t.args[2], d - 1)
    return m


def shl(a, b):
    if b.op == "c":
        if b.val >= a.w:
            return const(0, a.w)
        return lincomb(a.w, ((1 << b.val, a),))
    return _mk("shl", a.w, (a, b))


def lshr(a, b):
    if b.op == "c":
        if b.val == 0:
            return a
        if b.val >= a.w:
            return const(0, a.w)
        if a.op == "c":
            return const(a.val >> b.val, a.w)
        if a.op == "lshr" and is_c(a.args[1]):
            return lshr(a.args[0], const(a.args[1].val + b.val, a.w))
        if a.op == "zext":
            if b.val >= a.args[0].w:
                return const(0, a.w)
            return zext(lshr(a.args[0], const(b.val, a.args[0].w)), a.w)
        lo, hi = uivl(a)
        if lo >> b.val == hi >> b.val:
            return const(lo >> b.val, a.w)
        sp = _split_lin(a, 1 << b.val)
        if sp is not None:
            return sp[0]
        t = _mk("lshr", a.w, (a, b))
        return _magic(t)
    return _mk("lshr", a.w, (a, b))


def ashr(a, b):
    if b.op == "c":
        if b.val == 0:
            return a
        if a.op == "c":
            return const(sgn(a.val, a.w) >> min(b.val, a.w - 1), a.w)
        if sivl(a)[0] >= 0:
            return lshr(a, b)
    return _mk("ashr", a.w, (a, b))


def zext(a, w):
    if w == a.w:
        return a
    if a.op == "c":
        return const(a.val, w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.w > 1:
        if a.op == "lin":
            lo, hi = ivl(a)
            if 0 <= lo and hi < (1 << a.w):
                return _widen_lin(a, w)
        if a.op in ("udiv", "urem") and is_c(a.args[1]):
            return (udiv if a.op == "udiv" else urem)(zext(a.args[0], w), const(a.args[1].val, w))
        if a.op == "sext" and sivl(a)[0] >= 0:
            return zext(a.args[0], w)
        if a.op == "mul":
            lo, hi = ivl(a)
            if 0 <= lo and hi < (1 << a.w):
                return mul(_widen(a.args[0], w), _widen(a.args[1], w))
    return _mk("zext", w, (a,))


def _widen(x, w):
    """extension preserving the natural value"""
    return zext(x, w) if nat(x)[2] == "u" else sext(x, w)


def _widen_lin(a, w):
    return lincomb(w, [(sgn(k, a.w), _widen(x, w)) for k, x in zip(a.val[1:], a.args)], sgn(a.val[0], a.w))


def sext(a, w):
    if w == a.w:
        return a
    if a.op == "c":
        return const(sgn(a.val, a.w), w)
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.w > 1:
        if a.op == "lin":
            lo, hi = ivl(a)
            if -(1 << (a.w - 1)) <= lo and hi < (1 << (a.w - 1)):
                return _widen_lin(a, w)
        if a.op == "mul":
            lo, hi = ivl(a)
            if -(1 << (a.w - 1)) <= lo and hi < (1 << (a.w - 1)):
                return mul(_widen(a.args[0], w), _widen(a.args[1], w))
        if a.op not in ("v",) and nat(a)[2] == "u" and nat(a)[1] < (1 << (a.w - 1)):
            return zext(a, w)
        if a.op in ("sdiv", "srem") and is_c(a.args[1]) and sgn(a.args[1].val, a.w) > 0:
            return (sdiv if a.op == "sdiv" else srem)(sext(a.args[0], w), const(a.args[1].val, w))
        if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
            return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return _mk("sext", w, (a,))


def trunc(a, w):
    if w == a.w:
        return a
    if a.op == "c":
        return const(a.val, w)
    if a.op in ("zext", "sext"):
        i = a.args[0]
        if i.w == w:
            return i
        if i.w > w:
            return trunc(i, w)
        return zext(i, w) if a.op == "zext" else sext(i, w)
    if a.op == "trunc":
        return trunc(a.args[0], w)
    if w > 1:
        if a.op == "lin":
            return lincomb(w, [(k, trunc(x, w)) for k, x in zip(a.val[1:], a.args)], a.val[0])
        if a.op == "mul":
            return mul(trunc(a.args[0], w), trunc(a.args[1], w))
        if a.op in ("udiv", "urem") and is_c(a.args[1]) and uivl(a.args[0])[1] < (1 << w):
            if a.args[1].val < (1 << w):
                return (udiv if a.op == "udiv" else urem)(trunc(a.args[0], w), const(a.args[1].val, w))
        if a.op == "lshr" and is_c(a.args[1]) and a.args[0].op == "lin" and w <= a.w - a.args[1].val:
            # (2^k A + B) div 2^k = A modulo 2^w, for 0 <= B < 2^k
            x, k = a.args[0], a.args[1].val
            A, B = {}, {}
            for c, y in zip(x.val[1:], x.args):
                if c % (1 << k) == 0:
                    A[y] = c >> k
                else:
                    B[y] = c
            if A:
                lo, hi = ivl(_from_lin(x.w, x.val[0] % (1 << k), B))
                if 0 <= lo and hi < (1 << k):
                    return trunc(_from_lin(x.w, x.val[0] >> k, A), w)
    if a.op == "ite" and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == "and" and is_c(a.args[1]) and (a.args[1].val & ((1 << w) - 1)) == (1 << w) - 1:
        return trunc(a.args[0], w)
    return _mk("trunc", w, (a,))


def extract(a, hi, lo):
    if lo == 0:
        return trunc(a, hi + 1)
    return trunc(lshr(a, const(lo, a.w)), hi - lo + 1)


def concat(hi, lo):
    w = hi.w + lo.w
    # extract(x, .., lo.w) ++ trunc(x, lo.w)  ->  wider piece of x
    r = _rejoin(hi, lo)
    if r is not None:
        return r
    return bor(shl(zext(hi, w), const(lo.w, w)), zext(lo, w))


def _piece(t):
    """-> (x, bitoffset) such that t == extract(x, off+t.w-1, off)"""
    if t.op == "trunc":
        i = t.args[0]
        if i.op == "lshr" and is_c(i.args[1]):
            return i.args[0], i.args[1].val
        return i, 0
    return t, 0


def _rejoin(hi, lo):
    x, o = _piece(lo)
    y, p = _piece(hi)
    if x is y and p == o + lo.w and (hi.op == "trunc"):
        return extract(x, p + hi.w - 1, o)
    # top piece after lshr may keep full width trunc: lshr(x, k) truncated
    return None


def ite(c, a, b):
    if c.op == "c":
        return a if c.val else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == "c" and b.op == "c":
            return c if a.val else lnot(c)
        if a.op == "c":
            return bor(c, b) if a.val else band(lnot(c), b)
        if b.op == "c":
            return bor(lnot(c), a) if b.val else band(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", a.w, (c, a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val == b.val else FALSE
    if a.w == 1:
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            return a if b.val else lnot(a)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        if a.op == "zext":
            if b.val >> a.args[0].w:
                return FALSE
            return eq(a.args[0], const(b.val, a.args[0].w))
        if a.op == "sext":
            iw = a.args[0].w
            if sgn(b.val, b.w) != sgn(b.val & ((1 << iw) - 1), iw):
                return FALSE
            return eq(a.args[0], const(b.val, iw))
        if a.op == "ite" and (is_c(a.args[1]) or is_c(a.args[2])):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == "lin":
            if a.val[0]:
                return eq(_from_lin(a.w, 0, dict(zip(a.args, a.val[1:]))), const(b.val - a.val[0], a.w))
            if len(a.args) == 1 and a.val[1] & 1:
                inv = pow(a.val[1], -1, 1 << a.w)
                return eq(a.args[0], const(b.val * inv, a.w))
        if a.w > 1:
            lo, hi, k = nat(a)
            v = b.val if k == "u" else sgn(b.val, b.w)
            if v < lo or v > hi:
                return FALSE
            if lo == hi == v:
                return TRUE
    else:
        if a.op == b.op and a.op in ("zext", "sext") and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0])
        if a.w > 1:
            d = sub(a, b)
            if is_c(d):
                return TRUE if d.val == 0 else FALSE
            if d.op == "lin":
                d2 = expand(d)
                if is_c(d2):
                    return TRUE if d2.val == 0 else FALSE
            lo, hi = ivl(d)
            if lo > 0 and hi < (1 << a.w) or hi < 0 and lo > -(1 << a.w):
                return FALSE
            if d.op == "lin" and d.val[0] == 0 and len(d.args) > 2 and -(1 << a.w) < lo and hi < (1 << a.w):
                r = _mixed_radix(d)
                if r is not None:
                    return r
        if a.id > b.id:
            a, b = b, a
    return _mk("eq", 1, (a, b))


def _mixed_radix(d):
    """sum of c_i*(x_i - y_i) = 0 (over the integers), where every c_i exceeds
    what the smaller ones can make up for: x_i = y_i for every i"""
    g = {}
    for k, x in zip(d.val[1:], d.args):
        k = sgn(k, d.w)
        g.setdefault(abs(k), []).append((k, x))
    rest = 0  # bound on |sum of the smaller ones|
    out = TRUE
    for c in sorted(g):
        l = g[c]
        if len(l) > 2 or rest >= c:
            return None
        if len(l) == 2:
            if l[0][0] == l[1][0]:
                return None
            x, y = l[0][1], l[1][1]
            (xl, xh, xs), (yl, yh, ys) = nat(x), nat(y)
            # equality of the natural values is equality of the terms only if
            # both are read with the same signedness (or the ranges allow both)
            if xs != ys and (xl < 0 or yl < 0 or max(xh, yh) >= 1 << (d.w - 1)):
                return None
            b = max(xh - yl, yh - xl)
            e = eq(x, y)
        else:
            xl, xh, _ = nat(l[0][1])
            b = max(abs(xl), abs(xh))
            e = eq(l[0][1], const(0, d.w))
        rest += c * b
        out = band(out, e)
    return out


def expand(t):
    """rewrite remainders by constants as x - c*(x div c), to let sums cancel"""
    if t.op != "lin" or not any(x.op == "urem" or (x.op == "zext") for x in t.args):
        return t
    _noremfold[0] = True
    try:
        for _ in range(60):
            parts = []
            ch = False
            for k, x in zip(t.val[1:], t.args):
                if x.op == "urem" and is_c(x.args[1]):
                    ch = True
                    parts.append((k, x.args[0]))
                    parts.append((-k * x.args[1].val, udiv(x.args[0], x.args[1])))
                else:
                    parts.append((k, x))
            if not ch:
                break
            t = lincomb(t.w, parts, t.val[0])
            if t.op != "lin":
                break
        return t
    finally:
        _noremfold[0] = False


def ne(a, b):
    return lnot(eq(a, b))


def _cmp_ite(f, a, b):
    if a.op == "ite" and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == "ite" and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def ult(a, b):
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if a.val < b.val else FALSE
    if is_c(b) and b.val == 0:
        return FALSE
    if is_c(b) and b.val == 1:
        return eq(a, const(0, a.w))
    if is_c(a) and a.val == (1 << a.w) - 1:
        return FALSE
    if is_c(a) and a.val == 0:
        return ne(b, a)
    if a.w == 1:
        return band(lnot(a), b)
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if a.op == "zext" and is_c(b):
        if b.val >> a.args[0].w:
            return TRUE
        return ult(a.args[0], const(b.val, a.args[0].w))
    if b.op == "zext" and is_c(a):
        if a.val >> b.args[0].w:
            return FALSE
        return ult(const(a.val, b.args[0].w), b.args[0])
    (al, ah), (bl, bh) = uivl(a), uivl(b)
    if ah < bl:
        return TRUE
    if al >= bh:
        return FALSE
    r = _cmp_ite(ult, a, b)
    return r if r is not None else _mk("ult", 1, (a, b))


def ule(a, b):
    return lnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if sgn(a.val, a.w) < sgn(b.val, b.w) else FALSE
    if a.w == 1:
        return band(a, lnot(b))
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w:
        return ult(a.args[0], b.args[0])
    if a.op == "sext" and is_c(b):
        iw, v = a.args[0].w, sgn(b.val, b.w)
        if v > (1 << (iw - 1)) - 1:
            return TRUE
        if v < -(1 << (iw - 1)):
            return FALSE
        return slt(a.args[0], const(v, iw))
    if b.op == "sext" and is_c(a):
        iw, v = b.args[0].w, sgn(a.val, a.w)
        if v > (1 << (iw - 1)) - 1:
            return FALSE
        if v < -(1 << (iw - 1)):
            return TRUE
        return slt(const(v, iw), b.args[0])
    if a.op == "zext" and is_c(b):
        v = sgn(b.val, b.w)
        if v <= 0:
            return FALSE
        if v >> a.args[0].w:
            return TRUE
        return ult(a.args[0], const(v, a.args[0].w))
    if b.op == "zext" and is_c(a):
        v = sgn(a.val, a.w)
        if v < 0:
            return TRUE
        if v >> b.args[0].w:
            return FALSE
        return ult(const(v, b.args[0].w), b.args[0])
    (al, ah), (bl, bh) = sivl(a), sivl(b)
    if ah < bl:
        return TRUE
    if al >= bh:
        return FALSE
    r = _cmp_ite(slt, a, b)
    return r if r is not None else _mk("slt", 1, (a, b))


def sle(a, b):
    return lnot(slt(b, a))


def ovf(kind, a, b):
    """kind in sadd ssub smul uadd usub umul: 1 iff the operation overflows."""
    w = a.w
    if is_c(a) and is_c(b):
        s = kind[0] == "s"
        x, y = (sgn(a.val, w), sgn(b.val, w)) if s else (a.val, b.val)
        r = x + y if kind[1:] == "add" else x - y if kind[1:] == "sub" else x * y
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return FALSE if lo <= r <= hi else TRUE
    for x, y in ((a, b), (b, a)):
        if is_c(y):
            if y.val == 0 and not (y is a and kind[1:] == "sub"):
                return FALSE
            if kind[1:] == "mul" and y.val == 1 and w > 1:
                return FALSE
    if kind == "usub":
        return ult(a, b)
    s = kind[0] == "s"
    (al, ah), (bl, bh) = (sivl(a), sivl(b)) if s else (uivl(a), uivl(b))
    if kind[1:] == "add":
        l, h = al + bl, ah + bh
    elif kind[1:] == "sub":
        l, h = al - bh, ah - bl
    else:
        ps = (al * bl, al * bh, ah * bl, ah * bh)
        l, h = min(ps), max(ps)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if lo <= l and h <= hi:
        return FALSE
    if l > hi or h < lo:
        return TRUE
    return _mk("ovf", 1, (a, b), kind)


def uf(name, w, args, signed=False):
    """Uninterpreted function application."""
    return _mk("uf", w, tuple(args), (name, signed))


# ---- evaluation under a concrete assignment --------------------------------
def evaluate(t, env):
    memo = {}

    def ev(t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            a = [memo[y.id] for y in x.args]
            w = x.w
            m = (1 << w) - 1
            aw = x.args[0].w if x.args else 0
            o = x.op
            if o == "c":
                r = x.val
            elif o in ("v", "uf"):
                r = env[x] & m
            elif o == "lin":
                r = (x.val[0] + sum(k * q for k, q in zip(x.val[1:], a))) & m
            elif o == "mul":
                r = a[0] * a[1] & m
            elif o == "udiv":
                r = a[0] // a[1] if a[1] else m
            elif o == "urem":
                r = a[0] % a[1] if a[1] else a[0]
            elif o in ("sdiv", "srem"):
                p, q = sgn(a[0], w), sgn(a[1], w)
                if q == 0:
                    r = a[0]
                else:
                    d = _tdiv(p, q)
                    r = (d if o == "sdiv" else p - q * d) & m
            elif o == "not":
                r = 1 - a[0]
            elif o == "and":
                r = a[0] & a[1]
            elif o == "or":
                r = a[0] | a[1]
            elif o == "xor":
                r = a[0] ^ a[1]
            elif o == "shl":
                r = (a[0] << a[1]) & m if a[1] < w else 0
            elif o == "lshr":
                r = a[0] >> a[1] if a[1] < w else 0
            elif o == "ashr":
                r = (sgn(a[0], w) >> min(a[1], w)) & m
            elif o == "zext":
                r = a[0]
            elif o == "sext":
                r = sgn(a[0], aw) & m
            elif o == "trunc":
                r = a[0] & m
            elif o == "ite":
                r = a[1] if a[0] else a[2]
            elif o == "eq":
                r = int(a[0] == a[1])
            elif o == "ult":
                r = int(a[0] < a[1])
            elif o == "ule":
                r = int(a[0] <= a[1])
            elif o == "slt":
                r = int(sgn(a[0], aw) < sgn(a[1], aw))
            elif o == "sle":
                r = int(sgn(a[0], aw) <= sgn(a[1], aw))
            elif o == "ovf":
                r = ovf(x.val, const(a[0], aw), const(a[1], aw)).val
            else:
                raise NotImplementedError(o)
            memo[x.id] = r
            stack.pop()
        return memo[t.id]

    return ev(t)


# ---- lowering ---------------------------------------------------------------
class Unsupported(Exception):
    pass


def collect_bounds(conds):
    """Extract constant bounds on terms from a conjunction.
    -> dict term.id -> [slo, shi, ulo, uhi]"""
    B = {}

    def get(t):
        b = B.get(t.id)
        if b is None:
            w = t.w
            b = B[t.id] = [-(1 << (w - 1)), (1 << (w - 1)) - 1, 0, (1 << w) - 1]
        return b

    def norm(t):
        b = B[t.id]
        w = t.w
        h = 1 << (w - 1)
        for _ in range(2):
            if b[0] >= 0:
                b[2] = max(b[2], b[0])
                b[3] = min(b[3], b[1])
            if b[3] < h:
                b[0] = max(b[0], b[2])
                b[1] = min(b[1], b[3])

    def addc(c):
        o = c.op
        if o == "and":
            addc(c.args[0])
            addc(c.args[1])
        elif o == "eq":
            a, b = c.args
            if is_c(b):
                q = get(a)
                s = sgn(b.val, a.w)
                q[0] = max(q[0], s)
                q[1] = min(q[1], s)
                q[2] = max(q[2], b.val)
                q[3] = min(q[3], b.val)
                norm(a)
        elif o in ("slt", "sle", "ult", "ule"):
            a, b = c.args
            st = 1 if o[1:] == "lt" else 0
            if is_c(b):
                q = get(a)
                if o[0] == "s":
                    q[1] = min(q[1], sgn(b.val, a.w) - st)
                else:
                    q[3] = min(q[3], b.val - st)
                norm(a)
            elif is_c(a):
                q = get(b)
                if o[0] == "s":
                    q[0] = max(q[0], sgn(a.val, b.w) + st)
                else:
                    q[2] = max(q[2], a.val + st)
                norm(b)
        elif o == "not" and c.args[0].op == "eq":
            a, b = c.args[0].args
            if is_c(b) and a.w > 1:
                q = get(a)
                s = sgn(b.val, a.w)
                if q[0] == s:
                    q[0] += 1
                if q[1] == s:
                    q[1] -= 1
                if q[2] == b.val:
                    q[2] += 1
                if q[3] == b.val:
                    q[3] -= 1
                norm(a)
        elif o == "not" and c.args[0].op == "or":
            addc(lnot(c.args[0].args[0]))
            addc(lnot(c.args[0].args[1]))

    for c in conds:
        addc(c)
    for c in conds:
        addc(c)
    return B


class IntLower:
    """Exact lowering to integer arithmetic."""

    def __init__(self, bounds):
        self.B = bounds
        self.memo = {}
        self.bmemo = {}
        self.side = []
        self.vars = {}
        self.nfresh = 0
        self.nonlinear = False
        self.umemo = {}
        self.smemo = {}

    def fresh(self, p="k"):
        self.nfresh += 1
        return z3.Int("%s!%d" % (p, self.nfresh))

    # E(t): (expr, lo, hi), expr == t modulo 2^w, lo <= expr <= hi
    def E(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._E(t)
            e, lo, hi = r
            b = self.B.get(t.id)
            if b is not None:
                w = t.w
                if 0 <= lo and hi < (1 << w):
                    lo, hi = max(lo, b[2]), min(hi, b[3])
                elif lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    lo, hi = max(lo, b[0]), min(hi, b[1])
            if lo > hi:
                hi = lo  # the path is infeasible; any bound is sound only if so: keep consistent
                self.side.append(z3.BoolVal(False))
            r = (e, lo, hi)
            self.memo[t.id] = r
        return r

    def U(self, t):
        r = self.umemo.get(t.id)
        if r is not None:
            return r
        e, lo, hi = self.E(t)
        m = 1 << t.w
        if 0 <= lo and hi < m:
            r = (e, lo, hi)
        else:
            r = self._wrap(e, lo, hi, 0, m)
            b = self.B.get(t.id)
            if b is not None:
                r = (r[0], max(r[1], b[2]), min(r[2], b[3]))
                if r[1] > r[2]:
                    self.side.append(z3.BoolVal(False))
                    r = (r[0], r[1], r[1])
        self.umemo[t.id] = r
        return r

    def S(self, t):
        r = self.smemo.get(t.id)
        if r is not None:
            return r
        e, lo, hi = self.E(t)
        h = 1 << (t.w - 1)
        if -h <= lo and hi < h:
            r = (e, lo, hi)
        else:
            r = self._wrap(e, lo, hi, -h, 1 << t.w)
            b = self.B.get(t.id)
            if b is not None:
                r = (r[0], max(r[1], b[0]), min(r[2], b[1]))
                if r[1] > r[2]:
                    self.side.append(z3.BoolVal(False))
                    r = (r[0], r[1], r[1])
        self.smemo[t.id] = r
        return r

    def _wrap(self, e, lo, hi, base, m):
        """normalise e into [base, base+m)"""
        klo = (lo - base) // m
        khi = (hi - base) // m
        if klo == khi:
            return (e - klo * m, lo - klo * m, hi - klo * m)
        if isinstance(e, int):
            v = (e - base) % m + base
            return (v, v, v)
        if khi == klo + 1:
            r = z3.If(e < base + khi * m, e - klo * m, e - khi * m)
            # name it, to keep the terms small
            x = self.fresh("w")
            self.side.append(x == r)
            self.side.append(z3.And(x >= base, x < base + m))
            return (x, base, base + m - 1)
        k, x = self.fresh("k"), self.fresh("w")
        self.side.append(x == e - k * m)
        self.side.append(z3.And(x >= base, x < base + m, k >= klo, k <= khi))
        return (x, base, base + m - 1)

    def name(self, e, lo, hi):
        if isinstance(e, int):
            return e
        if z3.is_const(e):
            return e
        x = self.fresh("n")
        self.side.append(x == e)
        return x

    def divmod_c(self, e, lo, hi, d):
        """floor division of e by the positive constant d -> (q,lo,hi),(r,lo,hi)"""
        if isinstance(e, int):
            q, r = divmod(e, d)
            return (q, q, q), (r, r, r)
        if lo // d == hi // d:
            q = lo // d
            return (q, q, q), (e - q * d, lo - q * d, hi - q * d)
        key = ("dm", e.get_id(), d)
        z = self.memo.get(key)
        if z is None:
            q = self.fresh("q")
            r = e - q * d
            self.side.append(z3.And(r >= 0, r <= d - 1))
            self.side.append(z3.And(q >= lo // d, q <= hi // d))
            z = ((q, lo // d, hi // d), (r, 0, d - 1), e)
            self.memo[key] = z
        return z[0], z[1]

    def _E(self, t):
        o, w = t.op, t.w
        m = 1 << w
        if o == "c":
            return (t.val, t.val, t.val)
        if o in ("v", "uf"):
            x = self.vars.get(t)
            if x is None:
                nm = t.val[0] if o == "v" else "uf!%d" % t.id
                x = z3.Int(nm)
                self.vars[t] = x
                self.side.append(z3.And(x >= ivl(t)[0], x <= ivl(t)[1]))
            return (x,) + ivl(t)
        if w == 1:
            b = self.Bl(t)
            if b is True:
                return (1, 1, 1)
            if b is False:
                return (0, 0, 0)
            return (z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if o == "lin":
            c = sgn(t.val[0], w)
            e, lo, hi = c, c, c
            for k, a in zip(t.val[1:], t.args):
                k = sgn(k, w)
                ea, la, ha = self.E(a)
                # prefer the normalised value when the raw interval is huge
                if ha - la >= m:
                    ea, la, ha = self.U(a)
                if isinstance(ea, int):
                    e = e + k * ea
                else:
                    e = e + k * ea if not (isinstance(e, int) and e == 0) else (ea if k == 1 else k * ea)
                if k >= 0:
                    lo, hi = lo + k * la, hi + k * ha
                else:
                    lo, hi = lo + k * ha, hi + k * la
            return (e, lo, hi)
        if o == "mul":
            a, b = t.args
            ea, la, ha = self.E(a)
            eb, lb, hb = self.E(b)
            if ha - la >= (1 << w):
                ea, la, ha = self.U(a)
            if hb - lb >= (1 << w):
                eb, lb, hb = self.U(b)
            if not isinstance(ea, int) and not isinstance(eb, int):
                self.nonlinear = True
            ps = [la * lb, la * hb, ha * lb, ha * hb]
            return (ea * eb, min(ps), max(ps))
        if o in ("udiv", "urem"):
            a, b = t.args
            ea, la, ha = self.U(a)
            eb, lb, hb = self.U(b)
            if lb == hb and lb > 0:
                q, r = self.divmod_c(ea, la, ha, lb)
                return q if o == "udiv" else r
            if lb <= 0:
                raise Unsupported("division by possibly zero in int mode")
            self.nonlinear = True
            key = ("ud", a.id, b.id)
            z = self.memo.get(key)
            if z is None:
                q, r = self.fresh("q"), self.fresh("r")
                self.side.append(z3.And(ea == q * eb + r, r >= 0, r < eb, q >= 0, q <= ea))
                z = ((q, la // hb, ha // lb), (r, 0, hb - 1))
                self.memo[key] = z
            return z[0] if o == "udiv" else z[1]
        if o in ("sdiv", "srem"):
            a, b = t.args
            ea, la, ha = self.S(a)
            eb, lb, hb = self.S(b)
            if lb == hb and lb != 0:
                d = abs(lb)
                if isinstance(ea, int):
                    q = _tdiv(ea, lb)
                    r = ea - q * lb
                    return (q, q, q) if o == "sdiv" else (r, r, r)
                if la >= 0:
                    q, r = self.divmod_c(ea, la, ha, d)
                    qq, ql, qh = q
                    rr, rl, rh = r
                elif ha <= 0:
                    q, r = self.divmod_c(-ea, -ha, -la, d)
                    qq, ql, qh = -q[0], -q[2], -q[1]
                    rr, rl, rh = -r[0], -r[2], -r[1]
                else:
                    key = ("sd", a.id, d)
                    z = self.memo.get(key)
                    if z is None:
                        qv = self.fresh("q")
                        rv = ea - qv * d
                        self.side.append(z3.If(ea >= 0, z3.And(rv >= 0, rv < d), z3.And(rv <= 0, rv > -d)))
                        z = (qv, rv)
                        self.memo[key] = z
                    qq, ql, qh = z[0], -((-la) // d), ha // d
                    rr, rl, rh = z[1], -(d - 1), d - 1
                if o == "srem":
                    return (rr, rl, rh)
                if lb < 0:
                    return (-qq, -qh, -ql)
                return (qq, ql, qh)
            if lb <= 0 <= hb:
                raise Unsupported("sdiv by possibly zero in int mode")
            self.nonlinear = True
            key = ("sdv", a.id, b.id)
            z = self.memo.get(key)
            if z is None:
                q, r = self.fresh("q"), self.fresh("r")
                ab = z3.If(eb < 0, -eb, eb) if not isinstance(eb, int) else abs(eb)
                ar = z3.If(r < 0, -r, r)
                self.side.append(z3.And(ea == q * eb + r, ar < ab,
                                        z3.Implies(ea >= 0, r >= 0), z3.Implies(ea <= 0, r <= 0)))
                mx = max(abs(la), abs(ha))
                self.side.append(z3.And(q >= -mx, q <= mx))
                z = ((q, -mx, mx), (r, -mx, mx))
                self.memo[key] = z
            return z[0] if o == "sdiv" else z[1]
        if o == "zext":
            return self.U(t.args[0]) if t.args[0].w > 1 else self.E(t.args[0])
        if o == "sext":
            if t.args[0].w == 1:
                e, lo, hi = self.E(t.args[0])
                return (-e, -hi, -lo)
            return self.S(t.args[0])
        if o == "trunc":
            e, lo, hi = self.E(t.args[0])
            return (e, lo, hi)
        if o == "lshr":
            a, b = t.args
            if is_c(b):
                e, lo, hi = self.U(a)
                return self.divmod_c(e, lo, hi, 1 << b.val)[0]
            raise Unsupported("variable shift")
        if o == "ashr":
            a, b = t.args
            if is_c(b):
                e, lo, hi = self.S(a)
                return self.divmod_c(e, lo, hi, 1 << b.val)[0]
            raise Unsupported("variable shift")
        if o == "ite":
            c = self.Bl(t.args[0])
            if c is True:
                return self.E(t.args[1])
            if c is False:
                return self.E(t.args[2])
            x, y = self.E(t.args[1]), self.E(t.args[2])
            m2 = 1 << w
            if x[2] - x[1] >= m2:
                x = self.U(t.args[1])
            if y[2] - y[1] >= m2:
                y = self.U(t.args[2])
            # bring both to a common range if one is negative and the other beyond the signed range
            if isinstance(x[0], int) and isinstance(y[0], int) and x[0] == y[0]:
                return x
            h = m2 // 2
            if (x[1] < 0 or y[1] < 0) and (x[2] >= h or y[2] >= h):
                x, y = self.S(t.args[1]), self.S(t.args[2])
            xx = z3.IntVal(x[0]) if isinstance(x[0], int) else x[0]
            yy = z3.IntVal(y[0]) if isinstance(y[0], int) else y[0]
            return (z3.If(c, xx, yy), min(x[1], y[1]), max(x[2], y[2]))
        if o == "and":
            a, b = t.args
            if is_c(a):
                a, b = b, a
            if is_c(b):
                # contiguous mask
                v = b.val
                tz = (v & -v).bit_length() - 1
                if (v >> tz) & ((v >> tz) + 1) == 0:
                    n = (v >> tz).bit_length()
                    e, lo, hi = self.U(a)
                    q = self.divmod_c(e, lo, hi, 1 << tz)[0] if tz else (e, lo, hi)
                    r = self.divmod_c(*q, 1 << n)[1]
                    return (r[0] * (1 << tz), r[1] << tz, r[2] << tz)
            raise Unsupported("and")
        raise Unsupported(o)

    def _lz(self, x):
        return z3.IntVal(x) if isinstance(x, int) else x

    def Bl(self, t):
        r = self.bmemo.get(t.id)
        if r is None:
            r = self._Bl(t)
            self.bmemo[t.id] = r
        return r

    def _cmp(self, a, b, strict):
        (ea, la, ha), (eb, lb, hb) = a, b
        if strict:
            if ha < lb:
                return True
            if la >= hb:
                return False
            return self._lz(ea) < self._lz(eb)
        if ha <= lb:
            return True
        if la > hb:
            return False
        return self._lz(ea) <= self._lz(eb)

    def _Bl(self, t):
        o = t.op
        if o == "c":
            return bool(t.val)
        if o in ("v", "uf"):
            x = self.vars.get(t)
            if x is None:
                nm = t.val[0] if o == "v" else "uf!%d" % t.id
                x = self.vars[t] = z3.Bool(nm)
            return x
        if o == "not":
            x = self.Bl(t.args[0])
            return (not x) if isinstance(x, bool) else z3.Not(x)
        if o in ("and", "or"):
            x, y = self.Bl(t.args[0]), self.Bl(t.args[1])
            absorb = o == "or"
            for p, q in ((x, y), (y, x)):
                if isinstance(p, bool):
                    return p if p == absorb else q
            return z3.And(x, y) if o == "and" else z3.Or(x, y)
        if o == "eq":
            a, b = t.args
            if a.w == 1:
                x, y = self.Bl(a), self.Bl(b)
                return self._b(x) == self._b(y)
            (ea, la, ha), (eb, lb, hb) = self.E(a), self.E(b)
            m = 1 << a.w
            if ha - lb >= m or hb - la >= m:
                # not both within a common window of length 2^w
                ua = 0 <= la and ha < m
                ub = 0 <= lb and hb < m
                if ua or ub or a.w < 2:
                    (ea, la, ha), (eb, lb, hb) = self.U(a), self.U(b)
                else:
                    (ea, la, ha), (eb, lb, hb) = self.S(a), self.S(b)
            if ha < lb or hb < la:
                # disjoint raw windows, less than 2^w apart
                return False
            if la == ha == lb == hb:
                return True
            return self._lz(ea) == self._lz(eb)
        if o in ("ult", "ule"):
            return self._cmp(self.U(t.args[0]), self.U(t.args[1]), o == "ult")
        if o in ("slt", "sle"):
            return self._cmp(self.S(t.args[0]), self.S(t.args[1]), o == "slt")
        if o == "ite":
            c = self.Bl(t.args[0])
            if isinstance(c, bool):
                return self.Bl(t.args[1 if c else 2])
            return z3.If(c, self._b(self.Bl(t.args[1])), self._b(self.Bl(t.args[2])))
        if o == "ovf":
            a, b = t.args
            k = t.val
            w = a.w
            if k[0] == "s":
                x, y = self.S(a), self.S(b)
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            else:
                x, y = self.U(a), self.U(b)
                lo, hi = 0, (1 << w) - 1
            if k[1:] == "add":
                e, l, h = self._lz(x[0]) + y[0], x[1] + y[1], x[2] + y[2]
            elif k[1:] == "sub":
                e, l, h = self._lz(x[0]) - y[0], x[1] - y[2], x[2] - y[1]
            else:
                ps = [x[1] * y[1], x[1] * y[2], x[2] * y[1], x[2] * y[2]]
                e, l, h = self._lz(x[0]) * y[0], min(ps), max(ps)
                if not isinstance(x[0], int) and not isinstance(y[0], int):
                    self.nonlinear = True
            if lo <= l and h <= hi:
                return False
            if l > hi or h < lo:
                return True
            return z3.Or(e < lo, e > hi)
        if o == "trunc":
            e, lo, hi = self.U(t.args[0])
            r = self.divmod_c(e, lo, hi, 2)[1]
            return self._lz(r[0]) == 1
        if o == "xor":
            return z3.Xor(self._b(self.Bl(t.args[0])), self._b(self.Bl(t.args[1])))
        if o == "lshr" or o == "lin" or o == "mul" or o == "sext" or o == "zext":
            raise Unsupported(o + "1")
        raise Unsupported(o)

    def _b(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x


class BVLower:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.side = []

    def bv(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self._bv(x, [self.memo[a.id] for a in x.args])
            stack.pop()
        return self.memo[t.id]

    def _bit(self, b):
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def _bv(self, t, a):
        o, w = t.op, t.w
        if o == "c":
            return z3.BitVecVal(t.val, w)
        if o in ("v", "uf"):
            x = self.vars.get(t)
            if x is None:
                nm = t.val[0] if o == "v" else "uf!%d" % t.id
                x = self.vars[t] = z3.BitVec(nm, w)
                if o == "v":
                    _, sg, lo, hi = t.val
                    if sg and w > 1:
                        if lo > -(1 << (w - 1)):
                            self.side.append(x >= z3.BitVecVal(lo, w))
                        if hi < (1 << (w - 1)) - 1:
                            self.side.append(x <= z3.BitVecVal(hi, w))
                    elif not sg:
                        if lo > 0:
                            self.side.append(z3.UGE(x, z3.BitVecVal(lo, w)))
                        if hi < (1 << w) - 1:
                            self.side.append(z3.ULE(x, z3.BitVecVal(hi, w)))
            return x
        if o == "lin":
            r = None
            for k, x in zip(t.val[1:], a):
                k = sgn(k, w)
                if k == 1:
                    y = x
                elif k == -1:
                    y = -x
                elif k > 0 and k & (k - 1) == 0:
                    y = x << (k.bit_length() - 1)
                else:
                    y = x * z3.BitVecVal(k, w)
                r = y if r is None else r + y
            if t.val[0]:
                r = r + z3.BitVecVal(t.val[0], w)
            return r
        if o == "mul":
            return a[0] * a[1]
        if o == "udiv":
            return z3.UDiv(a[0], a[1])
        if o == "urem":
            return z3.URem(a[0], a[1])
        if o == "sdiv":
            return a[0] / a[1]
        if o == "srem":
            return z3.SRem(a[0], a[1])
        if o == "and":
            return a[0] & a[1]
        if o == "or":
            return a[0] | a[1]
        if o == "xor":
            return a[0] ^ a[1]
        if o == "not":
            return ~a[0]
        if o == "shl":
            return a[0] << a[1]
        if o == "lshr":
            return z3.LShR(a[0], a[1])
        if o == "ashr":
            return a[0] >> a[1]
        if o == "zext":
            return z3.ZeroExt(w - t.args[0].w, a[0])
        if o == "sext":
            return z3.SignExt(w - t.args[0].w, a[0])
        if o == "trunc":
            return z3.Extract(w - 1, 0, a[0])
        if o == "ite":
            return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
        if o == "eq":
            return self._bit(a[0] == a[1])
        if o == "ult":
            return self._bit(z3.ULT(a[0], a[1]))
        if o == "ule":
            return self._bit(z3.ULE(a[0], a[1]))
        if o == "slt":
            return self._bit(a[0] < a[1])
        if o == "sle":
            return self._bit(a[0] <= a[1])
        if o == "ovf":
            k = t.val
            if k == "sadd":
                ok = z3.And(z3.BVAddNoOverflow(a[0], a[1], True), z3.BVAddNoUnderflow(a[0], a[1]))
            elif k == "ssub":
                ok = z3.And(z3.BVSubNoOverflow(a[0], a[1]), z3.BVSubNoUnderflow(a[0], a[1], True))
            elif k == "smul":
                ok = z3.And(z3.BVMulNoOverflow(a[0], a[1], True), z3.BVMulNoUnderflow(a[0], a[1]))
            elif k == "uadd":
                ok = z3.BVAddNoOverflow(a[0], a[1], False)
            elif k == "umul":
                ok = z3.BVMulNoOverflow(a[0], a[1], False)
            else:
                ok = z3.UGE(a[0], a[1])
            return self._bit(z3.Not(ok))
        raise NotImplementedError(o)

    def cond(self, t):
        return self.bv(t) == z3.BitVecVal(1, 1)


_HARD = {"xor", "or", "shl"}


def wants_bv(conds):
    """True if some term cannot be lowered to integers."""
    seen = set()
    stack = list(conds)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.w > 1:
            if t.op in _HARD:
                return True
            if t.op == "and" and not (is_c(t.args[1]) or is_c(t.args[0])):
                return True
            if t.op in ("lshr", "ashr") and not is_c(t.args[1]):
                return True
        stack.extend(t.args)
    return False


class Result:
    def __init__(self, kind, model=None, why="", backend=""):
        self.kind, self.model, self.why, self.backend = kind, model, why, backend


stats = {"queries": 0, "time": 0.0, "by": {}, "trivial": 0}


def _int_model(low, m):
    r = {}
    for t, x in low.vars.items():
        v = m.eval(x, model_completion=True)
        if z3.is_bool(v):
            r[t] = 1 if z3.is_true(v) else 0
        else:
            r[t] = v.as_long() & ((1 << t.w) - 1)
    return r


class _Zero(dict):
    def __missing__(self, k):
        return 0


def solve(conds, timeout_ms=10000, order=None):
    """Satisfiability of a conjunction of width-1 terms.
    -> Result('sat'|'unsat'|'unknown')"""
    import time

    t0 = time.time()
    try:
        return _solve(conds, timeout_ms, order)
    finally:
        stats["time"] += time.time() - t0


def _solve(conds, timeout_ms, order):
    cs = []
    todo = list(reversed(conds))
    while todo:
        c = todo.pop()
        if c.op == "c":
            if not c.val:
                stats["trivial"] += 1
                return Result("unsat", backend="simplifier")
        elif c.op == "and" and c.w == 1:
            todo += [c.args[1], c.args[0]]
        elif c.op == "not" and c.args[0].op == "or" and c.args[0].w == 1:
            todo += [lnot(c.args[0].args[1]), lnot(c.args[0].args[0])]
        else:
            cs.append(c)
    if not cs:
        return Result("sat", {}, backend="simplifier")
    s = set(c.id for c in cs)
    for c in cs:
        if lnot(c).id in s:
            stats["trivial"] += 1
            return Result("unsat", backend="simplifier")
    if order is None:
        order = ["bv"] if wants_bv(cs) else ["int", "bv"]
    why = []
    for b in order:
        stats["queries"] += 1
        if b == "int":
            low = IntLower(collect_bounds(cs))
            try:
                fs = []
                false = False
                for c in cs:
                    f = low.Bl(c)
                    if f is False:
                        false = True
                        break
                    if f is True:
                        # the fact is implied by the intervals that were themselves
                        # derived from it: it must still be stated
                        f = _restate(low, c)
                        if f is None:
                            continue
                    fs.append(f)
                if false:
                    stats["by"]["interval"] = stats["by"].get("interval", 0) + 1
                    return Result("unsat", backend="interval")
            except Unsupported as e:
                why.append("int: " + str(e))
                continue
            sv = z3.Solver()
            sv.set("timeout", timeout_ms)
            for f in low.side:
                sv.add(f)
            for f in fs:
                sv.add(f)
            r = sv.check()
            name = "z3-nia" if low.nonlinear else "z3-lia"
            if r == z3.unsat:
                stats["by"][name] = stats["by"].get(name, 0) + 1
                return Result("unsat", backend=name)
            if r == z3.sat:
                # a model of the lowering is believed only if it satisfies the conditions themselves
                m = _int_model(low, sv.model())
                if all(evaluate(c, _Zero(m)) for c in cs):
                    return Result("sat", m, backend=name)
                why.append("int: the model does not satisfy the conditions")
                continue
            why.append("int: " + sv.reason_unknown())
        else:
            low = BVLower()
            sv = z3.SolverFor("QF_BV")
            sv.set("timeout", timeout_ms)
            for c in cs:
                sv.add(low.cond(c))
            for f in low.side:
                sv.add(f)
            r = sv.check()
            if r == z3.unsat:
                stats["by"]["z3-bv"] = stats["by"].get("z3-bv", 0) + 1
                return Result("unsat", backend="z3-bv")
            if r == z3.sat:
                m = sv.model()
                return Result("sat", {t: m.eval(x, model_completion=True).as_long() for t, x in low.vars.items()},
                              backend="z3-bv")
            why.append("bv: " + sv.reason_unknown())
    return Result("unknown", why="; ".join(why))


def _restate(low, c):
    """State a bound condition literally (its truth under the refined intervals
    came from the condition itself)."""
    neg_ = False
    while c.op == "not":
        c = c.args[0]
        neg_ = not neg_
    r = None
    if c.op in ("ult", "ule", "slt", "sle"):
        f = low.U if c.op[0] == "u" else low.S
        a, b = f(c.args[0])[0], f(c.args[1])[0]
        a, b = low._lz(a), low._lz(b)
        r = a < b if c.op[1:] == "lt" else a <= b
    elif c.op == "eq" and c.args[0].w > 1:
        e0, e1 = low.E(c.args[0]), low.E(c.args[1])
        m = 1 << c.args[0].w
        if max(e0[2], e1[2]) - min(e0[1], e1[1]) < m:
            a, b = e0[0], e1[0]
        else:
            a, b = low.U(c.args[0])[0], low.U(c.args[1])[0]
        r = low._lz(a) == low._lz(b)
    elif c.op == "and" and not neg_:
        x, y = _restate(low, c.args[0]), _restate(low, c.args[1])
        l = [q for q in (x, y) if q is not None]
        return z3.And(*l) if l else None
    elif c.op == "or" and neg_:
        x, y = _restate(low, lnot(c.args[0])), _restate(low, lnot(c.args[1]))
        l = [q for q in (x, y) if q is not None]
        return z3.And(*l) if l else None
    else:
        return None
    return z3.Not(r) if neg_ else r
