"""Symbolic executor / verification-condition generator over LLVM IR.

Every path of a proof function is executed with unconstrained symbolic inputs.
Loops are unrolled completely: a path is only dropped when its path condition
has been shown unsatisfiable, and running past the unwinding limit is itself a
failed obligation, so nothing is truncated silently. Obligations: the checks
stated in the proof, plus (implicitly) no signed overflow, no division by zero,
no oversized shift, no out-of-bounds, dangling or uninitialised access, no
failed assert(), no escaping exception, no reachable unreachable."""
import math
import re
import time

from . import terms as tm
from .ir import COV, Module, ity, PTR

SPEC_RE = re.compile(r"^vf_")


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return "&%s+%r" % (self.o, self.off)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn:" + self.name


class Flt:
    """A floating-point value: a Python float, or an opaque symbolic value."""
    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v, self.k = v, k


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
Z64 = tm.const(0, 64)
NULL = Ptr(0, Z64)


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Obj:
    __slots__ = ("size", "cells", "kind", "alive", "fill", "maxc", "own", "name", "al")

    def __init__(self, size, kind, fill=None, name=""):
        self.size, self.kind, self.fill, self.name = size, kind, fill, name
        self.cells = {}
        self.alive = True
        self.maxc = 1
        self.own = None
        self.al = 16 if kind == "heap" else 1

    def clone(self, own):
        o = Obj(self.size, self.kind, self.fill, self.name)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.maxc = self.maxc
        o.own = own
        o.al = self.al
        return o


class _Ctor:
    op, dst = "call", None


_CTOR = _Ctor()


class Frame:
    __slots__ = ("f", "b", "i", "r", "prev", "call", "allocas", "name")

    def __init__(self, f, call):
        self.f, self.call = f, call
        self.b = f.blocks[f.entry]
        self.name = f.entry
        self.i = 0
        self.r = {}
        self.prev = None
        self.allocas = []

    def copy(self):
        g = Frame.__new__(Frame)
        g.f, g.b, g.i, g.prev, g.call, g.name = self.f, self.b, self.i, self.prev, self.call, self.name
        g.r = dict(self.r)
        g.allocas = list(self.allocas)
        return g


class State:
    def __init__(self):
        self.tok = object()
        self.frames = []
        self.heap = {}
        self.conds = []
        self.model = {}
        self.model_ok = True
        self.inputs = []
        self.exc = []  # stack of caught exceptions
        self.cur_exc = None
        self.steps = 0
        self.covers = ()
        self.ghost = {}
        self.notes = []
        self.globals = {}

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        self.tok = object()  # every object is shared from now on
        s.conds = list(self.conds)
        s.model = self.model
        s.model_ok = self.model_ok
        s.inputs = list(self.inputs)
        s.exc = list(self.exc)
        s.cur_exc = self.cur_exc
        s.steps = self.steps
        s.covers = self.covers
        s.ghost = dict(self.ghost)
        s.notes = list(self.notes)
        s.globals = dict(self.globals)
        return s


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class NeedCase(Exception):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Fork(Exception):
    """Abandon the current instruction and re-execute it in every forked state."""

    def __init__(self, conds):
        self.conds = conds


HIER = {
    "_ZTISt13runtime_error": ["_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt14overflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt15underflow_error": ["_ZTISt13runtime_error"],
    "_ZTISt11range_error": ["_ZTISt13runtime_error"],
    "_ZTISt12system_error": ["_ZTISt13runtime_error"],
    "_ZTISt12domain_error": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
    "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt12length_error": ["_ZTISt11logic_error"],
    "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"],
    "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt12bad_any_cast": ["_ZTISt8bad_cast"],
    "_ZTISt18bad_variant_access": ["_ZTISt9exception"],
    "_ZTISt19bad_optional_access": ["_ZTISt9exception"],
}


class Failure:
    def __init__(self, kind, name, where, status, inputs, why="", cond=""):
        self.kind, self.name, self.where, self.status, self.inputs, self.why = kind, name, where, status, inputs, why
        self.cond = cond

    def d(self):
        return dict(kind=self.kind, name=self.name, where=self.where, status=self.status, inputs=self.inputs,
                    why=self.why, cond=self.cond)


class Exec:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = dict(max_steps=3000000, timeout=10000, feas_timeout=2000, max_paths=20000, deadline=None)
        self.o.update(opts or {})
        self.align = {}
        self.nobj = 0
        self.nvar = 0
        self.failures = []
        self.failkeys = {}
        self.obl = 0
        self.disch = 0
        self.by = {}
        self.named = {}
        self.covered = set()
        self.cov = set()
        self.paths = 0
        self.funcs_seen = {}
        self.opaque_seen = set()
        self.ghost_base = {}
        self.case_vals = list(self.o.get("cases", []))
        self.gobj = {}
        self.dispatch = {}
        self.overrides = []
        self.t_solver = 0.0
        self.solver_calls = 0
        self.contract_seen = set()
        self.allowed_uncaught = False
        from . import models
        models.register(self)

    # ------------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, fill=None, name="", al=0):
        self.nobj += 1
        o = Obj(size, kind, fill, name)
        o.own = st.tok
        if al:
            o.al = al
        if o.al > 1:
            self.align[self.nobj] = o.al
        st.heap[self.nobj] = o
        return self.nobj

    def obj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.gobj.get(oid)
        return o

    def wobj(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            o = self.gobj[oid].clone(st.tok)
            st.heap[oid] = o
            return o
        if o.own is not st.tok:
            o = o.clone(st.tok)
            st.heap[oid] = o
        return o

    def global_ptr(self, st, name):
        if name in self.m.ftext or name in self.m.decl:
            return Fn(name)
        oid = st.globals.get(name) or self.ghost_base.get(name)
        if oid is None:
            g = self.m.glob(name)
            if g is None:
                raise Unsupported("unknown global " + name)
            const, ty, init = g
            if isinstance(ty, str):
                raise Unsupported("alias " + name)
            if ty.k not in ("i", "ptr", "arr", "st", "vec", "float", "double", "x86_fp80", "fp128"):
                # possibly a function alias
                raise Unsupported("global " + name)
            self.nobj += 1
            oid = self.nobj
            o = Obj(self.m.size(ty), "const" if const else "global", None, name)
            self.ghost_base[name] = oid
            self.gobj[oid] = o
            if init is None:
                o.kind = "extern"
                o.size = max(o.size, 1)
            else:
                self._init(o, 0, ty, init, st)
        return Ptr(oid, Z64)

    def _init(self, o, off, ty, c, st):
        k = c[0]
        if k in ("zero",):
            self._zero(o, off, ty)
        elif k == "undef":
            pass
        elif k == "str":
            for j, b in enumerate(c[1]):
                self._put(o, off + j, 1, tm.const(b, 8))
        elif k == "agg":
            if ty.k == "st":
                for j, (t, v) in enumerate(c[1]):
                    fo, ft = self.m.field(ty, j)
                    self._init(o, off + fo, ft, v, st)
            else:
                es = self.m.size(ty.e)
                for j, (t, v) in enumerate(c[1]):
                    self._init(o, off + j * es, ty.e, v, st)
        else:
            v = self.val(st, None, ty, c)
            self._put(o, off, self.m.size(ty) if ty.k != "i" else (ty.n + 7) // 8, v)

    def _zero(self, o, off, ty):
        if ty.k == "i":
            self._put(o, off, (ty.n + 7) // 8, tm.const(0, ((ty.n + 7) // 8) * 8))
        elif ty.k == "ptr":
            self._put(o, off, 8, NULL)
        elif ty.k in ("arr", "vec"):
            es = self.m.size(ty.e)
            if ty.n * es > 4096:
                o.fill = 0
                return
            for j in range(ty.n):
                self._zero(o, off + j * es, ty.e)
        elif ty.k == "st":
            for j in range(len(ty.e)):
                fo, ft = self.m.field(ty, j)
                self._zero(o, off + fo, ft)
        else:
            self._put(o, off, self.m.size(ty), Flt(0.0, ty.k))

    def _put(self, o, off, n, v):
        o.cells[off] = (n, v)
        if n > o.maxc:
            o.maxc = n

    def _overlap(self, o, off, n):
        """starts of the cells overlapping [off, off+n)"""
        c = o.cells
        r = []
        lo = off - o.maxc + 1
        if len(c) < (n + o.maxc):
            for s in c:
                if s < off + n and s + c[s][0] > off:
                    r.append(s)
            r.sort()
            return r
        for s in range(lo, off + n):
            q = c.get(s)
            if q is not None and s + q[0] > off:
                r.append(s)
        return r

    def _sub(self, v, n, lo, cnt):
        """bytes [lo, lo+cnt) of an n-byte value"""
        if lo == 0 and cnt == n:
            return v
        if isinstance(v, tm.T):
            w = n * 8
            if v.w < w:
                v = tm.zext(v, w)
            return tm.extract(v, (lo + cnt) * 8 - 1, lo * 8)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Flt) and isinstance(v.v, float) and v.k in ("double", "float"):
            return self._sub(flt_bits(v), n, lo, cnt)
        if isinstance(v, Ptr) and v.o == 0:
            return self._sub(v.off, n, lo, cnt)
        return PtrPiece(v, lo, cnt)

    def store_bytes(self, o, off, n, v):
        c = o.cells
        q = c.get(off)
        if q is not None and q[0] == n:
            c[off] = (n, v)
            return
        for s in self._overlap(o, off, n):
            sn, sv = c.pop(s)
            if s < off:
                self._put(o, s, off - s, self._sub(sv, sn, 0, off - s))
            if s + sn > off + n:
                self._put(o, off + n, s + sn - off - n, self._sub(sv, sn, off + n - s, s + sn - off - n))
        self._put(o, off, n, v)

    def load_bytes(self, o, off, n):
        """-> value of n bytes: Term (8n bits), Ptr, Fn, Flt or UNDEF"""
        q = o.cells.get(off)
        if q is not None and q[0] == n:
            return q[1]
        parts = []
        p = off
        end = off + n
        for s in self._overlap(o, off, n):
            sn, sv = o.cells[s]
            if s > p:
                parts.append((s - p, tm.const(0, 8 * (s - p)) if o.fill == 0 else UNDEF))
                p = s
            take = min(s + sn, end) - p
            parts.append((take, self._sub(sv, sn, p - s, take)))
            p += take
        if p < end:
            parts.append((end - p, tm.const(0, 8 * (end - p)) if o.fill == 0 else UNDEF))
        if len(parts) == 1:
            return parts[0][1]
        if all(isinstance(x, PtrPiece) for _, x in parts):
            a = parts[0][1]
            pos = a.lo
            ok = True
            for k, x in parts:
                if x.v is not a.v or x.lo != pos:
                    ok = False
                pos += k
            if ok and a.lo == 0 and pos == 8:
                return a.v
        r = None
        for k, x in parts:
            if x is UNDEF:
                return UNDEF
            if isinstance(x, Flt):
                x = flt_bits(x)
            if isinstance(x, Ptr) and x.o == 0:
                x = x.off
            if not isinstance(x, tm.T):
                raise Unsupported("mixed pointer bytes")
            if x.w != 8 * k:
                x = tm.zext(x, 8 * k)
            r = x if r is None else tm.concat(x, r)
        return r

    def conv(self, v, ty):
        """convert a raw memory value to the IR type"""
        k = ty.k
        if v is UNDEF:
            return UNDEF
        if k == "i":
            if isinstance(v, tm.T):
                if v.w == ty.n:
                    return v
                if v.w > ty.n:
                    return tm.trunc(v, ty.n)
                return tm.zext(v, ty.n)
            if isinstance(v, (Ptr, Fn)):
                return self.ptrtoint(v, ty.n)
            if isinstance(v, Flt):
                return flt_bits(v)
            raise Unsupported("load int from %r" % (v,))
        if k == "ptr":
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, tm.T):
                return self.inttoptr(v)
            raise Unsupported("load ptr from %r" % (v,))
        if k in ("double", "float", "x86_fp80", "fp128"):
            if isinstance(v, Flt):
                return v
            if isinstance(v, tm.T) and tm.is_c(v):
                return bits_flt(v, k)
            return Flt(v, k)
        raise Unsupported("load " + k)

    def ptrtoint(self, p, w):
        if isinstance(p, Fn):
            nm = "fnaddr!" + p.name
            return tm.var(nm, w)
        if p.o == 0:
            t = p.off
        else:
            # the alignment of the object is part of the name
            o = self.gobj.get(p.o)
            al = o.al if o is not None else self.align.get(p.o, 1)
            t = tm.add(tm.var("addr!%d!%d" % (p.o, al), 64), p.off)
        return t if w == 64 else tm.trunc(t, w)

    def inttoptr(self, t):
        if t.w < 64:
            t = tm.zext(t, 64)
        c, d = tm._lin_parts(t)
        for a, k in d.items():
            if a.op == "v" and a.val[0].startswith("addr!") and k == 1:
                return Ptr(int(a.val[0].split("!")[1]), tm.sub(t, a))
            if a.op == "v" and a.val[0].startswith("fnaddr!"):
                return Fn(a.val[0][7:])
        return Ptr(0, t)

    def access(self, st, p, n, write, what):
        """resolve a pointer for an n-byte access -> (oid, [offset terms/ints])"""
        if isinstance(p, Fn):
            raise Unsupported("data access through function pointer")
        if p is UNDEF:
            self.fail_now(st, "memory", "uninitialised pointer dereferenced")
        if p.o == 0:
            self.fail_now(st, "memory", "null or invalid pointer dereferenced")
        o = self.obj(st, p.o)
        if o is None:
            raise Unsupported("object?")
        if not o.alive:
            self.fail_now(st, "memory", "access to a dead object (%s)" % o.name)
        if write and o.kind == "const":
            self.fail_now(st, "memory", "write to a constant object")
        off = p.off
        if tm.is_c(off):
            v = tm.sgn(off.val, 64)
            if isinstance(o.size, int):
                if v < 0 or v + n > o.size:
                    self.fail_now(st, "memory", "%s of %d bytes at offset %d of a %d-byte object (%s)" % (
                        what, n, v, o.size, o.name))
            return p.o, v
        sz = o.size if isinstance(o.size, int) else None
        if sz is None:
            raise Unsupported("symbolic object size")
        inb = tm.ule(off, tm.const(sz - n, 64)) if sz >= n else tm.FALSE
        self.prove(st, inb, "memory", what + " in bounds")
        return p.o, off

    def enum(self, st, t, limit=300):
        """all feasible values of t under the path condition"""
        vals = []
        extra = []
        m = self.get_model(st)
        while True:
            if m is None:
                break
            v = tm.evaluate(t, DefEnv(m))
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported("too many values for a symbolic offset")
            extra.append(tm.ne(t, tm.const(v, t.w)))
            r = self.solve_sliced(st, extra, self.o["timeout"])
            if r.kind == "unsat":
                break
            if r.kind == "unknown":
                raise Unsupported("solver gave up enumerating an offset")
            m = r.model
        return vals

    def load(self, st, p, ty):
        if ty.k in ("st", "arr", "vec"):
            es = []
            if ty.k == "st":
                for j in range(len(ty.e)):
                    fo, ft = self.m.field(ty, j)
                    es.append(self.load(st, Ptr(p.o, tm.add(p.off, tm.const(fo, 64))), ft))
            else:
                k = self.m.size(ty.e)
                for j in range(ty.n):
                    es.append(self.load(st, Ptr(p.o, tm.add(p.off, tm.const(j * k, 64))), ty.e))
            return Agg(es)
        n = (ty.n + 7) // 8 if ty.k == "i" else self.m.size(ty)
        oid, off = self.access(st, p, n, False, "load")
        o = self.obj(st, oid)
        if o.kind == "extern":
            raise Unsupported("load from external global " + o.name)
        if isinstance(off, int):
            return self.conv(self.load_bytes(o, off, n), ty)
        vals = self.enum(st, off)
        if ty.k != "i":
            if len(vals) == 1:
                return self.conv(self.load_bytes(o, vals[0], n), ty)
            raise Fork([tm.eq(off, tm.const(v, 64)) for v in vals])
        r = None
        for v in vals:
            x = self.conv(self.load_bytes(o, v, n), ty)
            if x is UNDEF:
                raise Fork([tm.eq(off, tm.const(v, 64)) for v in vals])
            r = x if r is None else tm.ite(tm.eq(off, tm.const(v, 64)), x, r)
        return r

    def store(self, st, p, ty, v):
        if ty.k in ("st", "arr", "vec"):
            if v is UNDEF:
                return
            for j, x in enumerate(v.e):
                if ty.k == "st":
                    fo, ft = self.m.field(ty, j)
                else:
                    fo, ft = j * self.m.size(ty.e), ty.e
                self.store(st, Ptr(p.o, tm.add(p.off, tm.const(fo, 64))), ft, x)
            return
        n = (ty.n + 7) // 8 if ty.k == "i" else self.m.size(ty)
        oid, off = self.access(st, p, n, True, "store")
        if isinstance(v, tm.T) and v.w != n * 8:
            v = tm.zext(v, n * 8)
        if not isinstance(off, int):
            vals = self.enum(st, off)
            if len(vals) == 1:
                off = vals[0]
            else:
                raise Fork([tm.eq(off, tm.const(x, 64)) for x in vals])
        self.store_bytes(self.wobj(st, oid), off, n, v)

    def conc(self, st, t, what="value", limit=64):
        """a concrete value for t, forking if there are several"""
        if tm.is_c(t):
            return t.val
        vals = self.enum(st, t, limit)
        if not vals:
            raise PathEnd()
        if len(vals) == 1:
            return vals[0]
        raise Fork([tm.eq(t, tm.const(v, t.w)) for v in vals])

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.access(st, s, n, False, "memcpy source")
        do, doff = self.access(st, d, n, True, "memcpy destination")
        if not isinstance(soff, int):
            soff = self.conc(st, soff)
        if not isinstance(doff, int):
            doff = self.conc(st, doff)
        src = self.obj(st, so)
        if src.kind == "extern":
            raise Unsupported("read of external global " + src.name)
        parts = []
        p = soff
        for q in self._overlap(src, soff, n):
            sn, sv = src.cells[q]
            if q > p:
                parts.append((p, q - p, None))
                p = q
            take = min(q + sn, soff + n) - p
            parts.append((p, take, self._sub(sv, sn, p - q, take)))
            p += take
        if p < soff + n:
            parts.append((p, soff + n - p, None))
        dst = self.wobj(st, do)
        fill0 = src.fill == 0
        # clear the destination range
        self.store_bytes(dst, doff, n, UNDEF)
        del dst.cells[doff]
        for p, k, v in parts:
            if v is None:
                if fill0:
                    for j in range(0, k, 8):
                        kk = min(8, k - j)
                        self._put(dst, doff + p - soff + j, kk, tm.const(0, 8 * kk))
                elif dst.fill == 0:
                    self._put(dst, doff + p - soff, k, UNDEF)
            else:
                self._put(dst, doff + p - soff, k, v)

    def memset(self, st, d, v, n):
        if n == 0:
            return
        do, doff = self.access(st, d, n, True, "memset")
        if not isinstance(doff, int):
            doff = self.conc(st, doff)
        dst = self.wobj(st, do)
        self.store_bytes(dst, doff, n, UNDEF)
        del dst.cells[doff]
        j = 0
        while j < n:
            k = 8 if n - j >= 8 else 1
            if tm.is_c(v):
                x = tm.const(int.from_bytes(bytes([v.val]) * k, "little"), 8 * k)
            else:
                k = 1
                x = v
            self._put(dst, doff + j, k, x)
            j += k

    # ------------------------------------------------------------------ solver
    def slice(self, conds, extra):
        vs = set()
        for e in extra:
            vs |= tm.tvars(e)
        rest = [(c, tm.tvars(c)) for c in conds]
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for c, cv in rest:
                if cv & vs:
                    out.append(c)
                    if not cv <= vs:
                        vs |= cv
                    changed = True
                else:
                    nr.append((c, cv))
            rest = nr
        ids = {c.id: i for i, c in enumerate(conds)}
        out.sort(key=lambda c: ids[c.id])
        return out

    def solve_sliced(self, st, extra, timeout):
        t0 = time.time()
        sl = self.slice(st.conds, extra)
        self.solver_calls += 1
        r = tm.solve(sl + list(extra), timeout)
        self.t_solver += time.time() - t0
        if r.kind == "sat":
            m = dict(st.model) if st.model_ok else dict(st.model)
            m.update(r.model)
            r.model = m
        return r

    def get_model(self, st):
        if st.model_ok:
            return st.model
        t0 = time.time()
        r = tm.solve(st.conds, self.o["timeout"])
        self.solver_calls += 1
        self.t_solver += time.time() - t0
        if r.kind == "sat":
            m = dict(st.model)
            m.update(r.model)
            st.model = m
            st.model_ok = True
            return m
        if r.kind == "unsat":
            raise PathEnd()
        raise Unsupported("no model for the path condition: " + r.why)

    def assume(self, st, c):
        """add c, known to be jointly feasible or not; drops the path if false"""
        if c.op == "c":
            if not c.val:
                raise PathEnd()
            return
        if c.op == "and" and c.w == 1:
            self.assume(st, c.args[0])
            self.assume(st, c.args[1])
            return
        if c.op == "not" and c.args[0].op == "or":
            self.assume(st, tm.lnot(c.args[0].args[0]))
            self.assume(st, tm.lnot(c.args[0].args[1]))
            return
        st.conds.append(c)
        if st.model_ok:
            if not tm.evaluate(c, DefEnv(st.model)):
                st.model_ok = False

    def feasible(self, st, c):
        """may c hold? (unknown counts as yes) -> (bool, model or None)"""
        if c.op == "c":
            return bool(c.val), None
        if st.model_ok and tm.evaluate(c, DefEnv(st.model)):
            return True, st.model
        r = self.solve_sliced(st, [c], self.o["feas_timeout"])
        if r.kind == "unsat":
            return False, None
        if r.kind == "sat":
            return True, (r.model if st.model_ok else None)
        return True, None

    def where(self, st):
        w = []
        for f in reversed(st.frames[-6:]):
            ln = 0
            k = min(f.i, len(f.b) - 1)
            ln = f.b[k].line if f.b else 0
            w.append("%s:%d" % (self.m.dem.get(f.f.name, f.f.name)[:150], ln))
        return w

    def record(self, st, kind, name, status, model, why="", cond=""):
        key = (kind, name)
        n = self.failkeys.get(key, 0)
        self.failkeys[key] = n + 1
        # keep a few counterexamples per obligation
        if n >= 3 and status != "sat":
            return
        if n >= 6:
            return
        inputs = None
        if model is not None:
            env = DefEnv(model)
            inputs = [(nm, tm.evaluate(t, env), b, s) for nm, t, b, s in st.inputs]
        self.failures.append(Failure(kind, name, self.where(st), status, inputs, why, cond))

    def count(self, kind, name, backend):
        self.obl += 1
        key = "check:" + name if kind == "check" else "safety:" + kind
        e = self.named.setdefault(key, [0, 0])
        e[0] += 1
        if backend:
            self.disch += 1
            e[1] += 1
            self.by[backend] = self.by.get(backend, 0) + 1

    def fail_now(self, st, kind, name):
        """an obligation that is false on the current path, if the path is feasible"""
        if not st.model_ok:
            try:
                self.get_model(st)
            except PathEnd:
                self.count(kind, name, "infeasible-path")
                raise
            except Unsupported as e:
                self.count(kind, name, None)
                self.record(st, kind, name, "unknown", None, str(e))
                raise PathEnd()
        self.count(kind, name, None)
        self.record(st, kind, name, "sat", st.model)
        raise PathEnd()

    def prove(self, st, c, kind, name):
        if c.op == "c":
            if c.val:
                self.count(kind, name, "simplifier")
                return
            self.fail_now(st, kind, name)
        if st.model_ok and not tm.evaluate(c, DefEnv(st.model)):
            self.count(kind, name, None)
            self.record(st, kind, name, "sat", st.model, cond=repr(c)[:400])
            self.assume(st, c)
            ok = True
            try:
                self.get_model(st)
            except PathEnd:
                ok = False
            if not ok:
                raise PathEnd()
            return
        if c.op == "and":
            # prove conjuncts one by one
            self._prove1(st, c.args[0], kind, name)
            self._prove1(st, c.args[1], kind, name)
            return
        self._prove1(st, c, kind, name)

    def _prove1(self, st, c, kind, name):
        if c.op == "and" or c.op == "c":
            return self.prove(st, c, kind, name)
        # once obligations are undecided the verdict is settled: look only for quick counterexamples
        nunk = getattr(self, "n_unknown", 0)
        if nunk >= 10:
            raise Unsupported("gave up after %d undecided obligations" % nunk)
        r = self.solve_sliced(st, [tm.lnot(c)], self.o["timeout"] if nunk < 3 else 2000)
        if r.kind == "unknown":
            r2 = self.fallback(st, tm.lnot(c)) if nunk < 3 else None
            if r2 is None or r2.kind == "unknown":
                self.n_unknown = nunk + 1
            if r2 is not None:
                r = r2
        if r.kind == "unsat":
            self.count(kind, name, r.backend)
            if kind != "check":
                self.assume(st, c)
            return
        if r.kind == "sat" and not st.model_ok:
            # the rest of the path condition may be unsatisfiable
            q = tm.solve(st.conds + [tm.lnot(c)], self.o["timeout"])
            if q.kind == "unsat":
                self.count(kind, name, "infeasible-path")
                raise PathEnd()
            if q.kind == "sat":
                r = q
            else:
                r = tm.Result("unknown", why=q.why)
        self.count(kind, name, None)
        self.record(st, kind, name, r.kind, r.model if r.kind == "sat" else None, r.why, cond=repr(c)[:400])
        self.assume(st, c)
        self.get_model(st)

    def fallback(self, st, c):
        from . import smtext
        t0 = time.time()
        r = smtext.solve(self.slice(st.conds, [c]) + [c], self.o.get("ext_timeout", 20))
        self.t_solver += time.time() - t0
        return r

    # ------------------------------------------------------------------ values
    def val(self, st, fr, ty, a):
        k = a[0]
        if k == "l":
            return fr.r[a[1]]
        if k == "c":
            return tm.const(a[1], ty.n)
        if k == "g":
            return self.global_ptr(st, a[1])
        if k == "null":
            return NULL
        if k == "undef":
            if ty.k in ("st", "arr", "vec"):
                return Agg([UNDEF] * (len(ty.e) if ty.k == "st" else ty.n))
            return UNDEF
        if k == "zero":
            return self.zero_of(ty)
        if k == "agg":
            return Agg([self.val(st, fr, t, v) for t, v in a[1]])
        if k == "gep":
            base = self.val(st, fr, PTR, a[2][0][1])
            return self.gep(st, fr, a[1], base, a[2][1:])
        if k == "cast":
            v = self.val(st, fr, a[2], a[3])
            return self.cast(a[1], v, a[2], a[4])
        if k == "bin":
            return self.binop(st, a[1], (), a[2], self.val(st, fr, a[2], a[3]), self.val(st, fr, a[2], a[4]))
        if k == "f":
            return parse_flt(a[1], ty.k)
        if k == "str":
            return Agg([tm.const(b, 8) for b in a[1]])
        raise Unsupported("operand " + k)

    def zero_of(self, ty):
        if ty.k == "i":
            return tm.const(0, ty.n)
        if ty.k == "ptr":
            return NULL
        if ty.k == "st":
            return Agg([self.zero_of(e) for e in ty.e])
        if ty.k in ("arr", "vec"):
            return Agg([self.zero_of(ty.e) for _ in range(ty.n)])
        return Flt(0.0, ty.k)

    def gep(self, st, fr, bt, base, idx):
        if base is UNDEF:
            return UNDEF
        if isinstance(base, Fn):
            raise Unsupported("gep on function")
        off = base.off
        t = bt
        first = True
        for ity_, a in idx:
            v = self.val(st, fr, ity_, a)
            if v is UNDEF:
                return UNDEF
            if first:
                off = tm.add(off, tm.mul(self._i64(v), tm.const(self.m.size(bt), 64)))
                first = False
            elif t.k == "st":
                fo, t = self.m.field(t, v.val)
                off = tm.add(off, tm.const(fo, 64))
            else:
                t = t.e
                off = tm.add(off, tm.mul(self._i64(v), tm.const(self.m.size(t), 64)))
        return Ptr(base.o, off)

    def _i64(self, v):
        if v.w == 64:
            return v
        if v.w > 64:
            return tm.trunc(v, 64)
        return tm.sext(v, 64)

    def cast(self, op, v, t, t2):
        if v is UNDEF:
            return UNDEF
        if op == "zext":
            return tm.zext(v, t2.n)
        if op == "sext":
            return tm.sext(v, t2.n)
        if op == "trunc":
            return tm.trunc(v, t2.n)
        if op == "ptrtoint":
            return self.ptrtoint(v, t2.n)
        if op == "inttoptr":
            return self.inttoptr(v)
        if op == "bitcast":
            if t.k == t2.k:
                return v
            if t2.k == "i":
                return flt_bits(v)
            return bits_flt(v, t2.k)
        if op in ("sitofp", "uitofp"):
            if tm.is_c(v):
                x = tm.sgn(v.val, v.w) if op == "sitofp" else v.val
                return rnd(float(x), t2.k)
            return Flt((op, v), t2.k)
        if op in ("fptosi", "fptoui"):
            if isinstance(v.v, float):
                return tm.const(int(v.v), t2.n)
            raise Unsupported(op)
        if op in ("fpext", "fptrunc"):
            if isinstance(v.v, float):
                return rnd(v.v, t2.k)
            return Flt((op, v.v), t2.k)
        raise Unsupported(op)

    def binop(self, st, op, flags, ty, a, b):
        if ty.k == "vec":
            raise Unsupported("vector arithmetic")
        if op[0] == "f" and op[1:] in ("add", "sub", "mul", "div", "rem"):
            if isinstance(a.v, float) and isinstance(b.v, float) and op != "frem":
                try:
                    r = {"fadd": a.v + b.v, "fsub": a.v - b.v, "fmul": a.v * b.v}.get(op)
                    if r is None:
                        r = a.v / b.v
                except ZeroDivisionError:
                    r = math.nan if a.v == 0 or a.v != a.v else math.copysign(math.inf, a.v) * math.copysign(1.0, b.v)
                return rnd(r, ty.k)
            return Flt((op, fkey(a), fkey(b)), ty.k)
        if a is UNDEF or b is UNDEF:
            if st is not None and op in ("and", "or") and (a is UNDEF) != (b is UNDEF):
                x = b if a is UNDEF else a
                if tm.is_c(x) and x.val == 0 and op == "and":
                    return x
            return UNDEF
        if op in ("add", "sub", "mul"):
            for f in flags:
                if f == "nsw":
                    self.prove(st, tm.lnot(tm.ovf("s" + op, a, b)), "overflow", "signed %s does not overflow" % op)
                elif f == "nuw" and op != "sub":
                    self.prove(st, tm.lnot(tm.ovf("u" + op, a, b)), "overflow", "nuw %s does not wrap" % op)
            return {"add": tm.add, "sub": tm.sub, "mul": tm.mul}[op](a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.prove(st, tm.ne(b, tm.const(0, b.w)), "division", "divisor is non-zero")
            if op[0] == "s":
                mn = tm.const(1 << (b.w - 1), b.w)
                self.prove(st, tm.bor(tm.ne(b, tm.const(-1, b.w)), tm.ne(a, mn)), "division",
                           "signed division does not overflow")
            return getattr(tm, op)(a, b)
        if op in ("shl", "lshr", "ashr"):
            self.prove(st, tm.ult(b, tm.const(b.w, b.w)), "shift", "shift amount below the width")
            if not tm.is_c(b):
                try:
                    vals = self.enum(st, b, 130)
                except Unsupported:
                    vals = None
                if vals is not None and len(vals) == 1:
                    b = tm.const(vals[0], b.w)
                elif vals is not None and len(vals) <= 8:
                    r = None
                    for v in vals:
                        x = getattr(tm, op)(a, tm.const(v, b.w))
                        r = x if r is None else tm.ite(tm.eq(b, tm.const(v, b.w)), x, r)
                    return r
            return getattr(tm, op)(a, b)
        if op == "and":
            return tm.band(a, b)
        if op == "or":
            return tm.bor(a, b)
        if op == "xor":
            return tm.xor(a, b)
        raise Unsupported(op)

    def icmp(self, st, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, tm.T):
                a = self.inttoptr(a)
            if isinstance(b, tm.T):
                b = self.inttoptr(b)
            if isinstance(a, Fn) or isinstance(b, Fn):
                same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                r = tm.TRUE if same else tm.FALSE
                if pred == "eq":
                    return r
                if pred == "ne":
                    return tm.lnot(r)
                raise Unsupported("ordering function pointers")
            if a.o == b.o:
                x, y = a.off, b.off
                if a.o != 0 and pred[0] == "u":
                    # within one object, offsets order as signed values
                    pred = "s" + pred[1:]
                return ICMP[pred](x, y)
            if pred == "eq":
                return tm.FALSE
            if pred == "ne":
                return tm.TRUE
            if a.o == 0 or b.o == 0:
                x = self.ptrtoint(a, 64)
                y = self.ptrtoint(b, 64)
                return ICMP[pred](x, y)
            # an arbitrary but fixed total order of objects
            return tm.TRUE if (a.o < b.o) == (pred[1] == "l") else tm.FALSE
        return ICMP[pred](a, b)

    # ------------------------------------------------------------------ running
    def run(self, fname):
        st = State()
        f = self.m.func(fname)
        fr = Frame(f, None)
        st.frames.append(fr)
        # dynamic initialisation of the globals comes first
        ct = re.findall(r"\{ i32 (\d+), ptr @([-\w.$]+|\"[^\"]*\"), ptr", self.m.gtext.get("llvm.global_ctors", ""))
        ct = [n.strip('"') for _, n in sorted(ct, key=lambda x: int(x[0]))]
        for n in reversed(ct):
            st.frames[-1].i -= 1
            st.frames.append(Frame(self.m.func(n), _CTOR))
        work = [st]
        try:
            while work:
                st = work.pop()
                if self.o["deadline"] and time.time() > self.o["deadline"]:
                    raise Unsupported("time budget exhausted")
                if self.paths + len(work) > self.o["max_paths"]:
                    raise Unsupported("path budget exhausted")
                try:
                    while True:
                        more = self.step(st)
                        if more:
                            work.extend(more)
                except Fork as e:
                    first = True
                    for c in e.conds:
                        ok, m = self.feasible(st, c)
                        if ok:
                            s = st.fork()
                            if m is not None:
                                s.model, s.model_ok = m, True
                            try:
                                self.assume(s, c)
                            except PathEnd:
                                continue
                            work.append(s)
                except Respawn as e:
                    work.extend(e.states)
                except PathEnd:
                    self.paths += 1
        except Unsupported as e:
            self.obl += 1
            self.record(st, "unsupported", str(e), "unknown", None, str(e))
        except NeedCase:
            raise
        except (KeyError, IndexError, AttributeError, TypeError, NotImplementedError, SyntaxError, AssertionError,
                ValueError, RecursionError) as e:
            import traceback
            self.obl += 1
            self.record(st, "unsupported", "internal: %r" % (e,), "unknown", None, traceback.format_exc()[-1500:])
        return self

    def goto(self, st, fr, label):
        fr.prev = fr.name
        fr.name = label
        fr.b = fr.f.blocks[label]
        fr.i = 0
        # phis, in parallel
        b = fr.b
        if b and b[0].op == "phi":
            new = {}
            k = 0
            while b[k].op == "phi":
                x = b[k]
                new[x.dst] = self.val(st, fr, x.ty, x.a[fr.prev])
                k += 1
            fr.r.update(new)
            fr.i = k

    def branch(self, st, fr, c, t, f):
        """conditional branch -> list of other states"""
        if c is UNDEF:
            self.fail_now(st, "uninitialised", "branch on an uninitialised value")
        if c.op == "c":
            self.goto(st, fr, t if c.val else f)
            return None
        nc = tm.lnot(c)
        okt, mt = self.feasible(st, c)
        if not okt:
            st.conds and None
            self.goto(st, fr, f)
            self.assume_known(st, nc)
            return None
        okf, mf = self.feasible(st, nc)
        if not okf:
            self.goto(st, fr, t)
            self.assume_known(st, c)
            return None
        s2 = st.fork()
        if mf is not None:
            s2.model, s2.model_ok = mf, True
        self.assume(s2, nc)
        self.goto(s2, s2.frames[-1], f)
        if mt is not None:
            st.model, st.model_ok = mt, True
        self.assume(st, c)
        self.goto(st, fr, t)
        return [s2]

    def assume_known(self, st, c):
        # implied by the path condition: nothing to add
        return

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.b[fr.i]
        st.steps += 1
        if st.steps > self.o["max_steps"]:
            raise Unsupported("unwinding limit reached")
        op = ins.op
        if COV:
            self.cov.add(ins.src)
        a = ins.a
        v = self.val
        if op == "load":
            fr.r[ins.dst] = self.load(st, v(st, fr, PTR, a[0]), ins.ty)
        elif op == "store":
            self.store(st, v(st, fr, PTR, a[1]), ins.ty, v(st, fr, ins.ty, a[0]))
        elif op == "getelementptr":
            fr.r[ins.dst] = self.gep(st, fr, ins.ty, v(st, fr, PTR, a[0][1]), a[1:])
        elif op in ("call", "invoke"):
            return self.call(st, fr, ins)
        elif op == "br":
            if len(a) == 1:
                self.goto(st, fr, a[0])
                return None
            return self.branch(st, fr, v(st, fr, ity(1), a[0]), a[1], a[2])
        elif op == "icmp":
            fr.r[ins.dst] = self.icmp(st, ins.flags, v(st, fr, ins.ty, a[0]), v(st, fr, ins.ty, a[1]))
        elif op in BIN:
            fr.r[ins.dst] = self.binop(st, op, ins.flags, ins.ty, v(st, fr, ins.ty, a[0]), v(st, fr, ins.ty, a[1]))
        elif op in CASTS:
            fr.r[ins.dst] = self.cast(op, v(st, fr, a[0], a[1]), a[0], ins.ty)
        elif op == "alloca":
            n = 1
            if a[0] is not None:
                n = self.conc(st, v(st, fr, a[0][0], a[0][1]))
            oid = self.new_obj(st, self.m.size(ins.ty) * n, "alloca", None, "%s in %s" % (ins.dst, fr.f.name[:60]), a[1])
            fr.allocas.append(oid)
            fr.r[ins.dst] = Ptr(oid, Z64)
        elif op == "ret":
            x = v(st, fr, ins.ty, a[0]) if a else None
            self.ret(st, fr, x)
            return None
        elif op == "select":
            c = v(st, fr, ity(1), a[0])
            x, y = v(st, fr, ins.ty, a[1]), v(st, fr, ins.ty, a[2])
            fr.r[ins.dst] = self.select(st, c, x, y)
        elif op == "switch":
            x = v(st, fr, ins.ty, a[0])
            if x is UNDEF:
                self.fail_now(st, "uninitialised", "switch on an uninitialised value")
            if tm.is_c(x):
                for cv, lb in a[2]:
                    if cv == x.val:
                        self.goto(st, fr, lb)
                        return None
                self.goto(st, fr, a[1])
                return None
            out = []
            rest = tm.TRUE
            tgts = []
            for cv, lb in a[2]:
                c = tm.eq(x, tm.const(cv, x.w))
                tgts.append((c, lb))
                rest = tm.band(rest, tm.lnot(c))
            tgts.append((rest, a[1]))
            for c, lb in tgts:
                ok, m = self.feasible(st, c)
                if ok:
                    s2 = st.fork()
                    if m is not None:
                        s2.model, s2.model_ok = m, True
                    self.assume(s2, c)
                    self.goto(s2, s2.frames[-1], lb)
                    out.append(s2)
            self._spawn(st, out)
            return None
        elif op == "extractvalue":
            x = v(st, fr, ins.ty, a[0])
            for k in a[1]:
                x = x.e[k] if x is not UNDEF else UNDEF
            fr.r[ins.dst] = x
        elif op == "insertvalue":
            x = v(st, fr, ins.ty, a[0])
            fr.r[ins.dst] = self.insv(x, v(st, fr, a[1], a[2]), a[3])
        elif op == "freeze":
            x = v(st, fr, ins.ty, a[0])
            if x is UNDEF:
                x = self.fresh(st, "freeze", ins.ty.n)
            fr.r[ins.dst] = x
        elif op == "fcmp":
            fr.r[ins.dst] = self.fcmp(st, ins.flags, v(st, fr, ins.ty, a[0]), v(st, fr, ins.ty, a[1]))
        elif op == "fneg":
            x = v(st, fr, ins.ty, a[0])
            fr.r[ins.dst] = Flt(-x.v if isinstance(x.v, float) else ("fneg", fkey(x)), x.k)
        elif op == "landingpad":
            fr.r[ins.dst] = Agg([st.cur_exc[1], tm.const(st.cur_exc[2], 32)])
        elif op == "resume":
            x = v(st, fr, a[0], a[1])
            self.unwind(st, st.cur_exc[0], st.cur_exc[1])
            return None
        elif op == "unreachable":
            self.fail_now(st, "unreachable", "unreachable code reached")
        elif op == "fence":
            pass
        elif op == "cmpxchg":
            p = v(st, fr, PTR, a[0])
            old = self.load(st, p, ins.ty)
            c = self.icmp(st, "eq", old, v(st, fr, ins.ty, a[1]))
            new = v(st, fr, ins.ty, a[2])
            self.store(st, p, ins.ty, self.select(st, c, new, old))
            fr.r[ins.dst] = Agg([old, c])
        elif op == "atomicrmw":
            p = v(st, fr, PTR, a[1])
            x = v(st, fr, ins.ty, a[2])
            old = self.load(st, p, ins.ty)
            o2 = a[0]
            if o2 == "xchg":
                n = x
            elif o2 in ("add", "sub", "and", "or", "xor"):
                n = self.binop(st, o2, (), ins.ty, old, x)
            else:
                raise Unsupported("atomicrmw " + o2)
            self.store(st, p, ins.ty, n)
            fr.r[ins.dst] = old
        elif op == "asm":
            if ins.dst is not None:
                raise Unsupported("inline asm")
        else:
            raise Unsupported(op + ": " + ins.text[:100])
        fr.i += 1
        return None

    def _spawn(self, st, out):
        """replace the current state by the list of states"""
        raise Respawn(out)

    def insv(self, x, v, idx):
        if x is UNDEF:
            raise Unsupported("insertvalue into undef scalar")
        e = list(x.e)
        e[idx[0]] = v if len(idx) == 1 else self.insv(e[idx[0]], v, idx[1:])
        return Agg(e)

    def select(self, st, c, x, y):
        if c is UNDEF:
            self.fail_now(st, "uninitialised", "select on an uninitialised value")
        if tm.is_c(c):
            return x if c.val else y
        if x is y:
            return x
        if isinstance(x, tm.T) and isinstance(y, tm.T):
            return tm.ite(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
            return Ptr(x.o, tm.ite(c, x.off, y.off))
        if not self.feasible(st, c)[0]:
            return y
        if not self.feasible(st, tm.lnot(c))[0]:
            return x
        raise Fork([c, tm.lnot(c)])

    def fcmp(self, st, pred, a, b):
        if isinstance(a.v, float) and isinstance(b.v, float):
            x, y = a.v, b.v
            un = x != x or y != y
            if pred in ("ord", "uno"):
                r = un == (pred == "uno")
            else:
                k = pred[1:]
                if un:
                    r = pred[0] == "u"
                else:
                    r = {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[k]
            return tm.TRUE if r else tm.FALSE
        from . import fpterms
        return fpterms.fcmp(pred, a, b)

    def fresh(self, st, name, w, signed=False):
        self.nvar += 1
        return tm.var("%s!%d" % (name, self.nvar), w, signed)

    def ret(self, st, fr, x):
        for o in fr.allocas:
            ob = st.heap.get(o)
            if ob is not None:
                del st.heap[o]
                d = DEAD
                st.heap[o] = d
        st.frames.pop()
        if not st.frames:
            self.end(st)
            raise PathEnd()
        c = fr.call
        up = st.frames[-1]
        if c.dst is not None:
            up.r[c.dst] = x
        self.after_call(st, up, c)

    def after_call(self, st, up, c):
        if c.op == "invoke":
            self.goto(st, up, c.a[2])
        else:
            up.i += 1

    def end(self, st):
        # the end of a proof is reached on a feasible path
        if not st.model_ok:
            try:
                self.get_model(st)
            except Unsupported:
                return
        for c in st.covers:
            self.covered.add(c)
        self.covered.add("end")

    def unwind(self, st, ti, obj):
        """propagate an exception of type ti from the current call site"""
        while True:
            fr = st.frames[-1]
            ins = fr.b[fr.i] if fr.i < len(fr.b) else None
            if ins is not None and ins.op == "invoke":
                lp = fr.f.blocks[ins.a[3]]
                k = 0
                while lp[k].op == "phi":
                    k += 1
                pad = lp[k]
                sel = None
                for cl in pad.a:
                    if cl[0] == "catch":
                        t = cl[1]
                        if t[0] == "null":
                            sel = 1
                            break
                        if t[0] == "g" and self.isa(ti, t[1]):
                            sel = self.tid(t[1])
                            break
                if sel is None and any(c[0] == "cleanup" for c in pad.a):
                    sel = 0
                if sel is None and any(c[0] == "filter" for c in pad.a):
                    self.fail_now(st, "exception", "exception escapes a noexcept function")
                if sel is not None:
                    st.cur_exc = (ti, obj, sel)
                    self.goto(st, fr, ins.a[3])
                    return
            # leave the frame
            for o in fr.allocas:
                if o in st.heap:
                    st.heap[o] = DEAD
            st.frames.pop()
            if not st.frames:
                st.frames.append(fr)
                self.fail_now(st, "exception", "an exception (%s) escapes the proof" % ti)

    def tid(self, name):
        if not hasattr(self, "_tids"):
            self._tids = {}
        return self._tids.setdefault(name, len(self._tids) + 2)

    def bases(self, ti):
        b = HIER.get(ti)
        if b is not None:
            return b
        g = self.m.gtext.get(ti)
        if g is None:
            return []
        names = re.findall(r"@(_ZTI\w+)", g)
        return [n for n in names if n != ti]

    def isa(self, ti, want):
        if ti == want:
            return True
        return any(self.isa(b, want) for b in self.bases(ti))

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        callee, args, nx, uw = ins.a
        if callee[0] == "g":
            name = callee[1]
        else:
            p = self.val(st, fr, PTR, callee)
            if isinstance(p, Fn):
                name = p.name
            else:
                self.fail_now(st, "memory", "call through an invalid function pointer")
        return self.call_name(st, fr, ins, name, args)

    def call_name(self, st, fr, ins, name, args):
        h = self.dispatch.get(name)
        if h is None:
            h = self.find_handler(name)
            self.dispatch[name] = h
        if h == "body":
            f = self.m.func(name)
            if f is None:
                raise Unsupported("no body for " + self.m.dem.get(name, name)[:300])
            if len(st.frames) > 400:
                raise Unsupported("recursion limit")
            self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
            nf = Frame(f, ins)
            for (t, a), p in zip(args, f.params):
                nf.r[p] = self.val(st, fr, t, a)
            if len(args) > len(f.params):
                raise Unsupported("varargs")
            st.frames.append(nf)
            self.byval(st, nf, f, ins, args)
            return None
        vals = [self.val(st, fr, t, a) for t, a in args]
        r = h(self, st, fr, ins, vals)
        if r is NORETURN:
            return None
        if isinstance(r, list):
            raise Respawn(r)
        if ins.dst is not None:
            fr.r[ins.dst] = r
        self.after_call(st, fr, ins)
        return None

    def byval(self, st, nf, f, ins, args):
        for (t, a), p in zip(args, f.params):
            if t.e is not None and t.k == "ptr":
                n = self.m.size(t.e)
                oid = self.new_obj(st, n, "alloca", None, "byval")
                nf.allocas.append(oid)
                q = Ptr(oid, Z64)
                self.memcpy(st, q, nf.r[p], n)
                nf.r[p] = q

    def find_handler(self, name):
        if name.startswith("llvm."):
            for k, h in self.intrinsics:
                if name.startswith(k):
                    return h
            raise Unsupported("intrinsic " + name)
        h = self.exact.get(name)
        if h is not None:
            return h
        d = self.m.dem.get(name, name)
        for rx, h in self.overrides:
            if rx.search(d):
                self.opaque_seen.add(d[:200])
                return h
        if name in self.m.ftext:
            return "body"
        f = self.m.func(name)
        if f is not None:
            return "body"
        raise Unsupported("no body for " + d[:300])

    def throw(self, st, ti, obj=None):
        self.unwind(st, ti, obj if obj is not None else NULL)
        return NORETURN


class Respawn(Exception):
    def __init__(self, states):
        self.states = states


class PtrPiece:
    __slots__ = ("v", "lo", "cnt")

    def __init__(self, v, lo, cnt):
        if isinstance(v, PtrPiece):
            lo += v.lo
            v = v.v
        self.v, self.lo, self.cnt = v, lo, cnt


class _NR:
    pass


NORETURN = _NR()
DEAD = Obj(0, "dead")
DEAD.alive = False


class DefEnv:
    """model with default value 0"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        return self.m.get(k, 0)


BIN = {"add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "urem", "srem", "and", "or", "xor", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
         "fptrunc"}
ICMP = {
    "eq": tm.eq, "ne": tm.ne, "ult": tm.ult, "ule": tm.ule, "ugt": lambda a, b: tm.ult(b, a),
    "uge": lambda a, b: tm.ule(b, a), "slt": tm.slt, "sle": tm.sle, "sgt": lambda a, b: tm.slt(b, a),
    "sge": lambda a, b: tm.sle(b, a),
}


def fkey(a):
    return a.v if isinstance(a, Flt) else a


def flt_bits(v):
    import struct
    if isinstance(v.v, float):
        if v.k == "double":
            return tm.const(int.from_bytes(struct.pack("<d", v.v), "little"), 64)
        if v.k == "float":
            return tm.const(int.from_bytes(struct.pack("<f", v.v), "little"), 32)
    if isinstance(v.v, tm.T):
        return v.v
    raise Unsupported("bits of a symbolic float")


def bits_flt(t, k):
    import struct
    if tm.is_c(t):
        if k == "double":
            return Flt(struct.unpack("<d", t.val.to_bytes(8, "little"))[0], k)
        if k == "float":
            return Flt(struct.unpack("<f", t.val.to_bytes(4, "little"))[0], k)
    return Flt(t, k)


def rnd(x, k):
    import struct
    if k == "float":
        try:
            x = struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError:
            x = float("inf") if x > 0 else float("-inf")
    return Flt(x, k)


def parse_flt(s, k):
    import struct
    if s.startswith("0x"):
        if s[2] in "KLMHR":
            if s[2] == "K":
                v = int(s[3:], 16)
                sign = -1.0 if v >> 79 else 1.0
                e = (v >> 64) & 0x7FFF
                m = v & ((1 << 64) - 1)
                if m == 0:
                    return Flt(sign * 0.0, k)
                import math
                return Flt(sign * math.ldexp(float(m), e - 16383 - 63), k)
            raise Unsupported("fp constant " + s)
        return Flt(struct.unpack("<d", int(s[2:], 16).to_bytes(8, "little"))[0], k)
    return Flt(float(s), k)
