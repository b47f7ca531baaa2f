"""Contracts assumed for what lies outside /repo: the C and C++ run-time
(memory, strings, exceptions, mutexes, streams), and the specification
primitives of vf.hpp. Every handler used by a proof is listed in the evidence
as an assumption."""
import math
import re

from . import terms as tm
from .exec import (Ptr, Fn, Flt, Agg, UNDEF, NULL, NORETURN, Z64, PathEnd, Unsupported, NeedCase, Fork, DefEnv, HIER,
                   PTR)
from .ir import ity

c64 = lambda v: tm.const(v, 64)


def cstr(ex, st, p):
    """concrete length and byte terms of a C string"""
    out = []
    q = p
    while True:
        b = ex.load(st, q, ity(8))
        if b is UNDEF:
            ex.fail_now(st, "uninitialised", "uninitialised byte in a C string")
        if tm.is_c(b) and b.val == 0:
            return out
        if not tm.is_c(b):
            z = tm.eq(b, tm.const(0, 8))
            ok, _ = ex.feasible(st, z)
            if ok:
                ok2, _ = ex.feasible(st, tm.lnot(z))
                if ok2:
                    raise Fork([z, tm.lnot(z)])
                return out
        out.append(b)
        q = Ptr(q.o, tm.add(q.off, c64(1)))


def get_bytes(ex, st, p, n):
    return [ex.load(st, Ptr(p.o, tm.add(p.off, c64(i))), ity(8)) for i in range(n)]


# ---- specification primitives ------------------------------------------------
def s_nondet(ex, st, fr, ins, a):
    # vf_nondet(ptr out, i32 bits, i32 signed, ptr lo, ptr hi)
    out, bits, sg = a[0], a[1].val, a[2].val
    k = len(st.inputs)
    v = tm.var("in%d" % k, bits, bool(sg)) if bits > 1 else tm.var("in%d" % k, 1)
    st.inputs.append(("in%d" % k, v, bits, sg))
    nb = (bits + 7) // 8 * 8
    if a[3].o != 0:
        lo = ex.load(st, a[3], ity(bits))
        hi = ex.load(st, a[4], ity(bits))
        env = DefEnv(st.model)
        lv, hv = tm.evaluate(lo, env), tm.evaluate(hi, env)
        if sg:
            lv, hv = tm.sgn(lv, bits), tm.sgn(hv, bits)
        if tm.is_c(lo) and tm.is_c(hi):
            if lv > hv:
                raise PathEnd()
            v = tm.var("in%d" % k, bits, bool(sg), lv, hv)
            st.inputs[-1] = ("in%d" % k, v, bits, sg)
            st.model = dict(st.model)
            st.model[v] = 0 if lv <= 0 <= hv else lv & ((1 << bits) - 1)
            if lv == hv:
                v = lo
        else:
            st.model = dict(st.model)
            st.model[v] = 0 if lv <= 0 <= hv else lv & ((1 << bits) - 1)
            f = tm.sle if sg else tm.ule
            ex.assume(st, f(lo, v))
            ex.assume(st, f(v, hi))
            ex.get_model(st)
    ex.store(st, out, ity(bits), tm.zext(v, nb) if nb != bits else v)


def s_assume(ex, st, fr, ins, a):
    c = boolean(ex, st, a[0])
    ok, m = ex.feasible(st, c)
    if not ok:
        raise PathEnd()
    if m is not None:
        st.model, st.model_ok = m, True
    ex.assume(st, c)


def boolean(ex, st, v):
    if v is UNDEF:
        ex.fail_now(st, "uninitialised", "uninitialised condition")
    return v if v.w == 1 else tm.ne(v, tm.const(0, v.w))


def lit(ex, st, p):
    return "".join(chr(b.val) for b in cstr(ex, st, p))


def s_check(ex, st, fr, ins, a):
    name = lit(ex, st, a[1])
    if a[0] is UNDEF:
        ex.fail_now(st, "check", name)
    ex.prove(st, boolean(ex, st, a[0]), "check", name)


def s_cover(ex, st, fr, ins, a):
    name = lit(ex, st, a[0])
    if name not in ex.covered:
        if not st.model_ok:
            ex.get_model(st)
        ex.covered.add(name)


def s_case(ex, st, fr, ins, a):
    lo, hi = tm.sgn(a[0].val, 64), tm.sgn(a[1].val, 64)
    k = st.ghost.get("ncase", 0)
    st.ghost["ncase"] = k + 1
    if k < len(ex.case_vals):
        v = ex.case_vals[k]
        if v < lo or v > hi:
            raise PathEnd()
    else:
        raise NeedCase(lo, hi)
    st.inputs.append(("case%d" % k, c64(v), 64, 1))
    return c64(v)


def s_split(ex, st, fr, ins, a):
    """case split: returns a concrete value equal to the argument"""
    return tm.const(ex.conc(st, a[0], limit=4200), a[0].w)


def s_note(ex, st, fr, ins, a):
    return None


def s_symbolic(ex, st, fr, ins, a):
    return tm.const(1, 32)


# ---- memory --------------------------------------------------------------------
def f_new(ex, st, fr, ins, a):
    n = a[0]
    if not tm.is_c(n):
        n = tm.const(ex.conc(st, n, limit=200), 64)
    if n.val > 1 << 32:
        # an absurd request throws
        return ex.throw(st, "_ZTISt9bad_alloc")
    return Ptr(ex.new_obj(st, n.val, "heap", None, "heap"), Z64)


def f_delete(ex, st, fr, ins, a):
    p = a[0]
    if isinstance(p, Ptr) and p.o == 0:
        return None
    o = ex.obj(st, p.o)
    if not o.alive or o.kind != "heap":
        ex.fail_now(st, "memory", "invalid or double delete")
    if not (tm.is_c(p.off) and p.off.val == 0):
        ex.fail_now(st, "memory", "delete of an interior pointer")
    from .exec import DEAD
    st.heap[p.o] = DEAD
    return None


def f_memcpy(ex, st, fr, ins, a):
    n = ex.conc(st, a[2])
    ex.memcpy(st, a[0], a[1], n)
    return a[0]


def f_memset(ex, st, fr, ins, a):
    n = ex.conc(st, a[2])
    v = a[1]
    if v.w > 8:
        v = tm.trunc(v, 8)
    ex.memset(st, a[0], v, n)
    return a[0]


def f_strlen(ex, st, fr, ins, a):
    return c64(len(cstr(ex, st, a[0])))


def f_memcmp(ex, st, fr, ins, a):
    n = ex.conc(st, a[2])
    x = get_bytes(ex, st, a[0], n)
    y = get_bytes(ex, st, a[1], n)
    return cmp_bytes(x, y)


def cmp_bytes(x, y):
    r = tm.const(0, 32)
    for p, q in reversed(list(zip(x, y))):
        e = tm.eq(p, q)
        l = tm.ult(p, q)
        r = tm.ite(e, r, tm.ite(l, tm.const(-1, 32), tm.const(1, 32)))
    return r


def f_strcmp(ex, st, fr, ins, a):
    x = cstr(ex, st, a[0]) + [tm.const(0, 8)]
    y = cstr(ex, st, a[1]) + [tm.const(0, 8)]
    n = min(len(x), len(y))
    return cmp_bytes(x[:n], y[:n])


def f_memchr(ex, st, fr, ins, a):
    n = ex.conc(st, a[2])
    v = tm.trunc(a[1], 8)
    for i, b in enumerate(get_bytes(ex, st, a[0], n)):
        c = tm.eq(b, v)
        if c.op != "c":
            ok, _ = ex.feasible(st, c)
            ok2, _ = ex.feasible(st, tm.lnot(c))
            if ok and ok2:
                raise Fork([c, tm.lnot(c)])
            c = tm.TRUE if ok else tm.FALSE
        if c.val:
            return Ptr(a[0].o, tm.add(a[0].off, c64(i)))
    return NULL


def noop(ex, st, fr, ins, a):
    return None


def zero32(ex, st, fr, ins, a):
    return tm.const(0, 32)


# ---- exceptions ------------------------------------------------------------------
def f_alloc_exc(ex, st, fr, ins, a):
    return Ptr(ex.new_obj(st, a[0].val, "heap", None, "exception object"), Z64)


def f_throw(ex, st, fr, ins, a):
    ti = a[1]
    o = ex.obj(st, ti.o)
    return ex.throw(st, o.name, a[0])


def f_begin_catch(ex, st, fr, ins, a):
    st.exc.append(st.cur_exc)
    return a[0]


def f_end_catch(ex, st, fr, ins, a):
    if st.exc:
        st.exc.pop()
    return None


def f_rethrow(ex, st, fr, ins, a):
    e = st.exc[-1]
    return ex.throw(st, e[0], e[1])


def f_typeid_for(ex, st, fr, ins, a):
    return tm.const(ex.tid(ex.obj(st, a[0].o).name), 32)


def thrower(ti):
    def h(ex, st, fr, ins, a):
        return ex.throw(st, ti)
    return h


def f_assert_fail(ex, st, fr, ins, a):
    ex.fail_now(st, "assertion", "assertion fails: " + lit(ex, st, a[0])[:120])


def f_terminate(ex, st, fr, ins, a):
    ex.fail_now(st, "exception", "std::terminate or abort reached")


def f_ex_thrower(ex, st, fr, ins, a):
    """contract of obake::detail::ex_thrower<E>::operator(): throws an E and
    nothing else (verified separately)."""
    name = ins.a[0][1]
    m = re.search(r"10ex_throwerI(.*?)EclI", name) or re.search(r"10ex_throwerI(.*)Ecl", name)
    t = m.group(1)
    if t.startswith("NS_"):
        t = "N5obake" + t[3:]  # the substitution for the enclosing namespace
    return ex.throw(st, "_ZTI" + t)


# ---- opaque strings -----------------------------------------------------------------
def o_string(ex, st, fr, ins, a):
    """a function returning some std::string by sret; content abstracted"""
    p = a[0]
    buf = Ptr(p.o, tm.add(p.off, c64(16)))
    ex.store(st, p, PTR, buf)
    ex.store(st, Ptr(p.o, tm.add(p.off, c64(8))), ity(64), c64(0))
    ex.store(st, buf, ity(8), tm.const(0, 8))
    return None


# ---- streams ---------------------------------------------------------------------------
# An ostream is an opaque object; its content is the ghost sequence of bytes. An
# ostringstream also has a position, at which characters replace existing ones.
def os_vptr(ex, st, p, vbase):
    # the only thing that is read in the object itself: the offset of the virtual base
    vt = ex.new_obj(st, 64, "heap", None, "vtable of a stream")
    ex.store(st, Ptr(vt, Z64), ity(64), c64(vbase))
    ex.store(st, p, PTR, Ptr(vt, c64(24)))


def os_new(ex, st, fr, ins, a):
    oid = ex.new_obj(st, 512, "heap", None, "ostream")
    st.ghost[("os", oid)] = ()
    if ex.o.get("render"):
        os_vptr(ex, st, Ptr(oid, Z64), 8)
    return Ptr(oid, Z64)


def os_of(ex, st, p):
    k = ("os", p.o)
    if k not in st.ghost:
        raise Unsupported("stream that was not created by the proof")
    return k


def os_app(ex, st, p, bytes_):
    k = os_of(ex, st, p)
    w = ("width", p.o)
    if st.ghost.get(w):
        raise Unsupported("field width")
    pos = st.ghost.get(("pos", p.o))
    old = st.ghost[k]
    if pos is None or pos >= len(old):
        st.ghost[k] = old + tuple(bytes_)
    else:
        n = len(bytes_)
        st.ghost[k] = old[:pos] + tuple(bytes_) + old[pos + n:]
    if pos is not None:
        st.ghost[("pos", p.o)] = pos + len(bytes_)
    return p


def string_bytes(ex, st, p):
    data = ex.load(st, p, PTR)
    n = ex.conc(st, ex.load(st, Ptr(p.o, tm.add(p.off, c64(8))), ity(64)))
    return get_bytes(ex, st, data, n)


def put_string(ex, st, p, bs):
    """a std::string object at p with the given content"""
    n = len(bs)
    buf = Ptr(p.o, tm.add(p.off, c64(16)))
    if n > 15:
        buf = Ptr(ex.new_obj(st, n + 1, "heap", None, "new"), Z64)
        ex.store(st, Ptr(p.o, tm.add(p.off, c64(16))), ity(64), c64(n))
    ex.store(st, p, PTR, buf)
    ex.store(st, Ptr(p.o, tm.add(p.off, c64(8))), ity(64), c64(n))
    for i, b in enumerate(list(bs) + [tm.const(0, 8)]):
        ex.store(st, Ptr(buf.o, tm.add(buf.off, c64(i))), ity(8), b)


def oss_ctor(with_text):
    def h(ex, st, fr, ins, a):
        st.ghost[("os", a[0].o)] = tuple(string_bytes(ex, st, a[1])) if with_text else ()
        st.ghost[("pos", a[0].o)] = 0
        os_vptr(ex, st, a[0], 112)
        return None
    return h


def oss_dtor(ex, st, fr, ins, a):
    del st.ghost[os_of(ex, st, a[0])]
    return None


def oss_set(ex, st, fr, ins, a):
    st.ghost[os_of(ex, st, a[0])] = tuple(string_bytes(ex, st, a[1]))
    st.ghost[("pos", a[0].o)] = 0
    return None


def oss_get(ex, st, fr, ins, a):
    put_string(ex, st, a[0], st.ghost[os_of(ex, st, a[1])])
    return None


def oss_seek(ex, st, fr, ins, a):
    # seekp(offset, direction)
    k = os_of(ex, st, a[0])
    off, way = tm.sgn(a[1].val, 64), a[2].val
    base = {0: 0, 1: st.ghost.get(("pos", a[0].o), 0), 2: len(st.ghost[k])}[way]
    if not 0 <= base + off <= len(st.ghost[k]):
        raise Unsupported("seekp() out of range")
    st.ghost[("pos", a[0].o)] = base + off
    return a[0]


def os_flags(ex, st, fr, ins, a):
    return tm.const(0x1002, 32)  # the default flags: dec | skipws


def mp_decimal(ex, st, p):
    """decimal representation of the stand-in of mppp::integer"""
    v = ex.load(st, p, ity(512))
    if not tm.is_c(v):
        for w in (8, 16, 32, 64, 128):
            u = tm.trunc(v, w)
            if not ex.feasible(st, tm.lnot(tm.eq(tm.sext(u, 512), v)))[0]:
                v = u
                break
    return decimal(ex, st, v, True)


def os_mp(ex, st, fr, ins, a):
    return os_app(ex, st, a[0], mp_decimal(ex, st, a[1]))


def f_format(ex, st, fr, ins, a):
    """fmt::format() with plain replacement fields"""
    name = ex.m.dem.get(ins.a[0][1], "")
    m = re.search(r"fmt::v\d+::format<(.*)>\((?:.*)\)$", name)
    bs = get_bytes(ex, st, a[1], ex.conc(st, a[2]))
    if any(not tm.is_c(b) for b in bs):
        raise Unsupported("symbolic format string")
    f = "".join(chr(b.val) for b in bs)
    args = []
    for t, v in zip(split_args(m.group(1)), a[3:]):
        t = t.replace(" const&", "").replace("&", "").strip()
        if "basic_string<" in t and t.startswith("std::"):
            args.append(string_bytes(ex, st, v))
        elif t.startswith("mppp::integer<"):
            args.append(mp_decimal(ex, st, v))
        else:
            return o_string(ex, st, fr, ins, a)
    out = []
    i = k = 0
    while i < len(f):
        if f[i:i + 2] in ("{{", "}}"):
            out.append(tm.const(ord(f[i]), 8))
            i += 2
        elif f[i:i + 2] == "{}":
            out += args[k]
            k += 1
            i += 2
        elif f[i] in "{}":
            return o_string(ex, st, fr, ins, a)
        else:
            out.append(tm.const(ord(f[i]), 8))
            i += 1
    put_string(ex, st, a[0], out)
    return None


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        d += (c in "<(") - (c in ">)")
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def os_cstr(ex, st, fr, ins, a):
    return os_app(ex, st, a[0], cstr(ex, st, a[1]))


def os_char(ex, st, fr, ins, a):
    b = a[1]
    return os_app(ex, st, a[0], [b])


def os_string(ex, st, fr, ins, a):
    return os_app(ex, st, a[0], string_bytes(ex, st, a[1]))


def os_insert(ex, st, fr, ins, a):
    n = ex.conc(st, a[2])
    return os_app(ex, st, a[0], get_bytes(ex, st, a[1], n))


def os_read(ex, st, fr, ins, a):
    # size_t vf_os_read(os, char *buf, size_t cap)
    bs = st.ghost[os_of(ex, st, a[0])]
    cap = a[2].val
    for i, b in enumerate(bs[:cap]):
        ex.store(st, Ptr(a[1].o, tm.add(a[1].off, c64(i))), ity(8), b)
    return c64(len(bs))


def os_int(signed):
    def h(ex, st, fr, ins, a):
        # decimal representation, as the standard prescribes for default flags
        v = a[1]
        bs = decimal(ex, st, v, signed)
        return os_app(ex, st, a[0], bs)
    return h


def decimal(ex, st, v, signed):
    if tm.is_c(v):
        x = tm.sgn(v.val, v.w) if signed else v.val
        return [tm.const(ord(c), 8) for c in str(x)]
    w = v.w + 1
    if signed:
        s = tm.slt(v, tm.const(0, v.w))
        ok, _ = ex.feasible(st, s)
        ok2, _ = ex.feasible(st, tm.lnot(s))
        if ok and ok2:
            raise Fork([s, tm.lnot(s)])
        neg = ok
        mag = tm.neg(tm.sext(v, w)) if neg else tm.sext(v, w)
    else:
        neg = False
        mag = tm.zext(v, w)
    n = 1
    while True:
        if 10 ** n >= 1 << w:
            break
        c = tm.ult(mag, tm.const(10 ** n, w))
        ok, _ = ex.feasible(st, c)
        if not ok:
            n += 1
            continue
        ok2, _ = ex.feasible(st, tm.lnot(c))
        if ok2:
            raise Fork([c, tm.lnot(c)])
        break
    out = [tm.const(45, 8)] if neg else []
    ds = []
    q = mag
    for _ in range(n):
        ds.append(tm.add(tm.trunc(tm.urem(q, tm.const(10, w)), 8), tm.const(48, 8)))
        q = tm.udiv(q, tm.const(10, w))
    return out + ds[::-1]


def o_std_to_string(ex, st, fr, ins, a):
    raise Unsupported("to_string")


# ---- hashing -------------------------------------------------------------------------------
def f_hash_bytes(ex, st, fr, ins, a):
    n = ex.conc(st, a[1])
    bs = get_bytes(ex, st, a[0], n)
    if all(tm.is_c(b) for b in bs) and tm.is_c(a[2]):
        return c64(murmur(bytes(b.val for b in bs), a[2].val))
    key = tuple(b.id for b in bs)
    return tm.uf("hash_bytes", 64, bs + [a[2]])


def murmur(data, seed):
    M = (1 << 64) - 1
    mul = 0xc6a4a7935bd1e995
    n = len(data)
    h = (seed ^ (n * mul)) & M
    sm = lambda v: v ^ (v >> 47)
    k = 0
    while k + 8 <= n:
        d = int.from_bytes(data[k:k + 8], "little")
        d = sm(d * mul & M) * mul & M
        h = (h ^ d) * mul & M
        k += 8
    if n & 7:
        d = int.from_bytes(data[k:], "little")
        h = (h ^ d) * mul & M
    h = sm(h) * mul & M
    return sm(h)


def f_next_bkt(ex, st, fr, ins, a):
    # std::__detail::_Prime_rehash_policy::_M_next_bkt(n): any prime >= n; also sets _M_next_resize
    n = a[1].val
    p = max(n, 2)
    while any(p % k == 0 for k in range(2, int(p ** 0.5) + 1)):
        p += 1
    ex.store(st, Ptr(a[0].o, tm.add(a[0].off, c64(8))), ity(64), c64(p))
    return c64(p)


def f_need_rehash(ex, st, fr, ins, a):
    # (this, n_bkt, n_elt, n_ins) -> {bool, size_t}
    nb, ne, ni = (x.val for x in a[1:4])
    cur = ex.load(st, Ptr(a[0].o, tm.add(a[0].off, c64(8))), ity(64)).val
    if ne + ni > cur or cur == 0:
        if ne + ni <= nb and cur:
            ex.store(st, Ptr(a[0].o, tm.add(a[0].off, c64(8))), ity(64), c64(nb))
            return Agg([tm.FALSE if ins.ty.e[0].n == 1 else tm.const(0, 8), c64(0)])
        want = max(ne + ni, nb * 2, 11)
        p = f_next_bkt(ex, st, fr, ins, [a[0], c64(want)])
        w = ins.ty.e[0].n
        return Agg([tm.const(1, w), p])
    return Agg([tm.const(0, ins.ty.e[0].n), c64(0)])


# ---- mutexes -----------------------------------------------------------------------------------
def f_lock(ex, st, fr, ins, a):
    k = ("mutex", a[0].o, a[0].off.id)
    if st.ghost.get(k):
        ex.fail_now(st, "mutex", "a mutex is locked twice by one thread")
    st.ghost[k] = True
    return tm.const(0, 32)


def f_unlock(ex, st, fr, ins, a):
    k = ("mutex", a[0].o, a[0].off.id)
    if not st.ghost.get(k):
        ex.fail_now(st, "mutex", "a mutex that is not held is unlocked")
    st.ghost[k] = False
    return tm.const(0, 32)


def s_mutex_held(ex, st, fr, ins, a):
    n = sum(1 for k, v in st.ghost.items() if isinstance(k, tuple) and k[0] == "mutex" and v)
    return tm.const(n, 32)


def f_guard_acquire(ex, st, fr, ins, a):
    # initialisation of a local static: in the first call only
    done = ex.load(st, a[0], ity(8))
    return tm.const(0 if done.val else 1, 32)


def f_guard_release(ex, st, fr, ins, a):
    ex.store(st, a[0], ity(8), tm.const(1, 8))


# ---- intrinsics -----------------------------------------------------------------------------------
def i_ovf(kind):
    def h(ex, st, fr, ins, a):
        f = {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[kind[1:]]
        return Agg([f(a[0], a[1]), tm.ovf(kind, a[0], a[1])])
    return h


def i_minmax(f, swap):
    def h(ex, st, fr, ins, a):
        c = f(a[0], a[1])
        return tm.ite(c, a[1], a[0]) if swap else tm.ite(c, a[0], a[1])
    return h


def i_abs(ex, st, fr, ins, a):
    return tm.ite(tm.slt(a[0], tm.const(0, a[0].w)), tm.neg(a[0]), a[0])


def i_fpclass(ex, st, fr, ins, a):
    x = a[0].v
    if not isinstance(x, float):
        raise Unsupported("class of a symbolic floating-point value")
    neg = math.copysign(1.0, x) < 0
    tiny = 2.0 ** -1022 if a[0].k == "double" else 2.0 ** -126
    if x != x:
        bits = 3
    else:
        c = 0 if math.isinf(x) else 3 if x == 0 else 2 if abs(x) < tiny else 1
        bits = 1 << (2 + c if neg else 9 - c)
    return tm.TRUE if bits & a[1].val else tm.FALSE


def i_fp(f):
    def h(ex, st, fr, ins, a):
        if not isinstance(a[0].v, float):
            raise Unsupported("rounding of a symbolic floating-point value")
        return Flt(float(f(a[0].v)), a[0].k)
    return h


def i_fsh(left):
    def h(ex, st, fr, ins, a):
        w = a[0].w
        s = tm.urem(a[2], tm.const(w, w))
        if not tm.is_c(s):
            raise Unsupported("fsh by variable")
        k = s.val
        if not left:
            k = (w - k) % w
            if k == 0:
                return a[1]
        if k == 0:
            return a[0]
        return tm.bor(tm.shl(a[0], tm.const(k, w)), tm.lshr(a[1], tm.const(w - k, w)))
    return h


def i_ctpop(ex, st, fr, ins, a):
    w = a[0].w
    r = tm.const(0, w)
    for i in range(w):
        r = tm.add(r, tm.zext(tm.extract(a[0], i, i), w))
    return r


def i_ctlz(ex, st, fr, ins, a):
    w = a[0].w
    if tm.is_c(a[0]):
        return tm.const(w - a[0].val.bit_length(), w)
    r = tm.const(w, w)
    for i in range(w):
        r = tm.ite(tm.eq(tm.extract(a[0], i, i), tm.const(1, 1)), tm.const(w - 1 - i, w), r)
    return r


def i_expect(ex, st, fr, ins, a):
    return a[0]


def i_assume(ex, st, fr, ins, a):
    return None


def i_isconst(ex, st, fr, ins, a):
    return tm.FALSE


def i_objsize(ex, st, fr, ins, a):
    return tm.const(-1, 64)


def i_trap(ex, st, fr, ins, a):
    ex.fail_now(st, "trap", "trap reached")


INTR = {
    "llvm.lifetime": noop, "llvm.memcpy": f_memcpy, "llvm.memmove": f_memcpy, "llvm.memset": f_memset,
    "llvm.threadlocal.address": lambda ex, st, fr, ins, a: a[0], "llvm.expect": i_expect, "llvm.assume": i_assume, "llvm.is.constant": i_isconst, "llvm.objectsize": i_objsize,
    "llvm.trap": i_trap, "llvm.eh.typeid.for": f_typeid_for, "llvm.dbg": noop, "llvm.invariant": noop,
    "llvm.experimental.noalias": noop, "llvm.stacksave": lambda *a: NULL, "llvm.stackrestore": noop,
    "llvm.sadd.with.overflow": i_ovf("sadd"), "llvm.ssub.with.overflow": i_ovf("ssub"),
    "llvm.smul.with.overflow": i_ovf("smul"), "llvm.uadd.with.overflow": i_ovf("uadd"),
    "llvm.usub.with.overflow": i_ovf("usub"), "llvm.umul.with.overflow": i_ovf("umul"),
    "llvm.smax": i_minmax(tm.slt, True), "llvm.smin": i_minmax(tm.slt, False),
    "llvm.umax": i_minmax(tm.ult, True), "llvm.umin": i_minmax(tm.ult, False), "llvm.abs": i_abs,
    "llvm.fshl": i_fsh(True), "llvm.fshr": i_fsh(False), "llvm.ctpop": i_ctpop, "llvm.ctlz": i_ctlz,
    "llvm.floor": i_fp(math.floor), "llvm.ceil": i_fp(math.ceil), "llvm.trunc": i_fp(math.trunc), "llvm.fabs": i_fp(abs),
    "llvm.is.fpclass": i_fpclass,
}

EXACT = {
    "vf_nondet": s_nondet, "vf_assume": s_assume, "vf_check": s_check, "vf_cover": s_cover, "vf_case": s_case,
    "vf_split64": s_split, "vf_note": s_note, "vf_symbolic": s_symbolic, "vf_mutex_held": s_mutex_held,
    "vf_os_new": os_new, "vf_os_read": os_read, "vf_os_free": noop,
    "_Znwm": f_new, "_Znam": f_new, "_ZnwmSt11align_val_t": f_new, "_ZdlPv": f_delete, "_ZdaPv": f_delete,
    "_ZdlPvm": f_delete, "_ZdaPvm": f_delete, "_ZdlPvSt11align_val_t": f_delete, "_ZdlPvmSt11align_val_t": f_delete,
    "malloc": f_new, "free": f_delete,
    "memcpy": f_memcpy, "memmove": f_memcpy, "memset": f_memset, "strlen": f_strlen, "memcmp": f_memcmp,
    "bcmp": f_memcmp, "strcmp": f_strcmp, "memchr": f_memchr,
    "__cxa_allocate_exception": f_alloc_exc, "__cxa_free_exception": noop, "__cxa_throw": f_throw,
    "__cxa_begin_catch": f_begin_catch, "__cxa_end_catch": f_end_catch, "__cxa_rethrow": f_rethrow,
    "__cxa_atexit": zero32, "__cxa_thread_atexit": zero32, "__cxa_guard_acquire": f_guard_acquire, "__cxa_guard_release": f_guard_release,
    "__cxa_guard_abort": noop, "__assert_fail": f_assert_fail, "abort": f_terminate, "_ZSt9terminatev": f_terminate,
    "__clang_call_terminate": f_terminate, "__cxa_pure_virtual": f_terminate,
    "_ZSt17__throw_bad_allocv": thrower("_ZTISt9bad_alloc"),
    "_ZSt28__throw_bad_array_new_lengthv": thrower("_ZTISt20bad_array_new_length"),
    "_ZSt16__throw_bad_castv": thrower("_ZTISt8bad_cast"),
    "_ZSt20__throw_length_errorPKc": thrower("_ZTISt12length_error"),
    "_ZSt19__throw_logic_errorPKc": thrower("_ZTISt11logic_error"),
    "_ZSt20__throw_out_of_rangePKc": thrower("_ZTISt12out_of_range"),
    "_ZSt24__throw_out_of_range_fmtPKcz": thrower("_ZTISt12out_of_range"),
    "_ZSt24__throw_invalid_argumentPKc": thrower("_ZTISt16invalid_argument"),
    "_ZSt20__throw_system_errori": thrower("_ZTISt12system_error"),
    "_ZSt25__throw_bad_function_callv": thrower("_ZTISt17bad_function_call"),
    "_ZSt11_Hash_bytesPKvmm": f_hash_bytes,
    "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm": f_next_bkt,
    "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm": f_need_rehash,
    "pthread_mutex_lock": f_lock, "pthread_mutex_unlock": f_unlock,
    "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc": os_cstr,
    "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c": os_char,
    "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE": os_string,
    "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l": os_insert,
    "_ZNSolsEi": os_int(True), "_ZNSolsEj": os_int(False), "_ZNSolsEl": os_int(True), "_ZNSolsEm": os_int(False),
    "_ZNSolsEx": os_int(True), "_ZNSolsEy": os_int(False), "_ZNSolsEs": os_int(True), "_ZNSolsEt": os_int(False),
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": None,
}
EXACT = {k: v for k, v in EXACT.items() if v is not None}

# matched against demangled names, in this order
OVERRIDES = [
    (r"obake::detail::ex_thrower<.*>::operator\(\)", f_ex_thrower),
    (r"^(std::.*basic_string<.*> )?fmt::v\d+::(format|vformat|to_string)(<|\()", o_string),
    (r"^(std::.*basic_string<.*> )?mppp::type_name<", o_string),
    (r"^std::.*basic_string<.*> obake::detail::safe_int_arith_err<", o_string),
    (r"^std::.*(runtime_error|logic_error|overflow_error|domain_error|invalid_argument|out_of_range|length_error"
     r"|range_error|exception|bad_alloc|bad_cast|bad_any_cast)::~?\w+\(", noop),
]


OSS = r"^std::.*basic_ostringstream<char, std::char_traits<char>, std::allocator<char> ?>::"
# proofs about texts: streams and fmt::format() are interpreted instead of abstracted
RENDER = [
    (r"^(std::.*basic_string<.*> )?fmt::v\d+::format<", f_format),
    (OSS + r"basic_ostringstream\(\)", oss_ctor(False)),
    (OSS + r"basic_ostringstream\(std::.*basic_string<", oss_ctor(True)),
    (OSS + r"~basic_ostringstream\(", oss_dtor),
    (OSS + r"str\(\) (const|&&)", oss_get),
    (OSS + r"str\(std::", oss_set),
    (r"^std::(basic_ostream<.*>|ostream)::seekp\(long, ", oss_seek),
    (r"^std::ios_base::flags\(", os_flags),
    (r"^std::basic_ios<char, .*>::exceptions\(", noop),
    (r"(^|::|& )mppp::operator<<\(std::.*, mppp::integer<", os_mp),
]


def register(ex):
    ex.exact = dict(EXACT)
    ex.intrinsics = sorted(INTR.items(), key=lambda p: -len(p[0]))
    drop = ex.o.get("no_override", [])
    ex.overrides = [(re.compile(r), h) for r, h in OVERRIDES if not any(d in r for d in drop)]
    if ex.o.get("render"):
        ex.overrides = [(re.compile(r), h) for r, h in RENDER] + ex.overrides
    for r, kind in ex.o.get("opaque", []):
        ex.overrides.insert(0, (re.compile(r), {"string": o_string, "noop": noop}[kind]))
    for r, target in ex.o.get("replace", []):
        ex.overrides.insert(0, (re.compile(r), _replace(target)))


def _replace(target):
    def h(ex, st, fr, ins, a):
        # call the contract stub instead; refer to it by its (extern "C") name
        ex.contract_seen.add((ins.a[0][1], target))
        f = ex.m.func(target)
        if f is None:
            raise Unsupported("no contract stub " + target)
        from .exec import Frame
        nf = Frame(f, ins)
        for v, p in zip(a, f.params):
            nf.r[p] = v
        st.frames.append(nf)
        return NORETURN
    return h
