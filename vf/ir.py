"""Parser for the subset of textual LLVM 18 IR that clang emits for C++ code.
Function bodies are parsed lazily."""
import os
import re
import subprocess

TOK = re.compile(
    r'c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|\$"[^"]*"|"(?:[^"\\]|\\.)*"|%[-\w.$]+|@[-\w.$]+|![\w.]+(?:\([^)]*\))?|!\{|!|#\d+'
    r'|0x[KLMH]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.$]*|\.\.\.|\|\||[()\[\]{}<>,=*:;|]')


class Ty:
    __slots__ = ("k", "n", "e", "name", "packed", "_sz", "_al")

    def __init__(self, k, n=0, e=None, name=None, packed=False):
        self.k, self.n, self.e, self.name, self.packed = k, n, e, name, packed
        self._sz = None
        self._al = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.e)
        if self.k == "st":
            return "{%s}" % ",".join(map(repr, self.e))
        return self.name or self.k


VOID, PTR = Ty("void"), Ty("ptr")
I = {}


def ity(n):
    if n not in I:
        I[n] = Ty("i", n)
    return I[n]


FLT = {"float": (4, 4), "double": (8, 8), "x86_fp80": (16, 16), "half": (2, 2), "fp128": (16, 16), "bfloat": (2, 2)}


COV = os.environ.get("VF_COV")


class Module:
    def __init__(self, text):
        self.types = {}  # name -> Ty or token string (lazy)
        self.globals = {}  # name -> (const?, ty, init token list or None)
        self.gtext = {}
        self.decl = {}
        self.ftext = {}
        self.funcs = {}
        self.lines = {}
        self.lscope, self.sfile, self.dfile = {}, {}, {}
        self.aliases = {}
        self._scan(text)
        self._demangle()

    def _scan(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        dl = re.compile(r"^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: (!\d+)")
        fd = re.compile(r'@("[^"]*"|[-\w.$]+)\(')
        while i < n:
            L = lines[i]
            if L.startswith("define"):
                name = fd.search(L).group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.ftext[name] = lines[i:j]
                i = j
            elif L.startswith("declare"):
                name = fd.search(L).group(1).strip('"')
                self.decl[name] = L
            elif L.startswith("%"):
                name, body = L.split(" = type ", 1)
                self.types[name[1:].strip('"')] = body
            elif L.startswith("@"):
                name, body = L.split(" = ", 1)
                self.gtext[name[1:].strip('"')] = body
            elif L.startswith("!"):
                m = dl.match(L)
                if m:
                    self.lines[m.group(1)] = int(m.group(2))
                    if COV:
                        self.lscope[m.group(1)] = m.group(3)
                elif COV:
                    self._scope(L)
            i += 1

    # which source file a location belongs to (only for the coverage tool)
    def _scope(self, L):
        m = re.match(r"^(!\d+) = (?:distinct )?!DIFile\(filename: \"([^\"]*)\", directory: \"([^\"]*)\"", L)
        if m:
            self.dfile[m.group(1)] = os.path.normpath(os.path.join(m.group(3), m.group(2)))
            return
        m = re.match(r"^(!\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile)\(", L)
        if m:
            f = re.search(r"file: (!\d+)", L)
            if f:
                self.sfile[m.group(1)] = f.group(1)

    def _demangle(self):
        names = list(self.ftext) + list(self.decl)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True,
                             text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))

    # ---- types
    def named(self, name):
        t = self.types.get(name)
        if isinstance(t, str):
            if t == "opaque":
                t = Ty("st", e=[], name=name)
                self.types[name] = t
                return t
            ty = Ty("st", e=None, name=name)
            self.types[name] = ty
            q = P(self, TOK.findall(t)).type()
            ty.e, ty.packed = q.e, q.packed
            return ty
        return t

    def size(self, t):
        """alloc size"""
        if t._sz is None:
            k = t.k
            if k == "i":
                b = (t.n + 7) // 8
                a = self.align(t)
                t._sz = (b + a - 1) // a * a
            elif k == "ptr":
                t._sz = 8
            elif k == "arr":
                t._sz = t.n * self.size(t.e)
            elif k == "vec":
                t._sz = t.n * self.size(t.e)
            elif k == "st":
                o = 0
                for e in t.e:
                    if not t.packed:
                        a = self.align(e)
                        o = (o + a - 1) // a * a
                    o += self.size(e)
                if not t.packed and t.e:
                    a = self.align(t)
                    o = (o + a - 1) // a * a
                t._sz = o
            elif k in FLT:
                t._sz = FLT[k][0]
            elif k == "void":
                t._sz = 0
            else:
                raise NotImplementedError("size of " + k)
        return t._sz

    def align(self, t):
        if t._al is None:
            k = t.k
            if k == "i":
                b = (t.n + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                t._al = a
            elif k == "ptr":
                t._al = 8
            elif k in ("arr", "vec"):
                t._al = self.align(t.e)
            elif k == "st":
                t._al = 1 if t.packed else max([1] + [self.align(e) for e in t.e])
            elif k in FLT:
                t._al = FLT[k][1]
            else:
                raise NotImplementedError("align of " + k)
        return t._al

    def field(self, t, i):
        """offset of field i of struct t"""
        o = 0
        for j, e in enumerate(t.e):
            if not t.packed:
                a = self.align(e)
                o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += self.size(e)
        raise IndexError

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            if name in self.aliases:
                return self.func(self.aliases[name])
            t = self.ftext.get(name)
            if t is None:
                g = self.gtext.get(name)
                if g and " alias " in " " + g:
                    m = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', g.split(", partition")[0])
                    self.aliases[name] = m.group(1).strip('"')
                    return self.func(self.aliases[name])
                return None
            f = self.funcs[name] = Func(self, name, t)
        return f

    def glob(self, name):
        """-> (const, Ty, init or None)"""
        g = self.globals.get(name)
        if g is None:
            body = self.gtext.get(name)
            if body is None:
                return None
            toks = TOK.findall(body)
            i = 0
            ext = False
            while toks[i] not in ("global", "constant"):
                if toks[i] in ("external", "extern_weak"):
                    ext = True
                i += 1
            const = toks[i] == "constant"
            p = P(self, toks, i + 1)
            ty = p.type()
            init = None
            if not ext:
                init = p.const(ty)
            g = self.globals[name] = (const, ty, init)
        return g


PARAM_ATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
              "returned", "inreg", "nofree", "immarg", "dead_on_unwind", "writable", "swiftself", "nest", "allocptr",
              "allocalign", "noext", "captures"}
PAREN_ATTR = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "byref",
              "preallocated", "inalloca", "nofpclass", "range", "memory"}


class P:
    """token stream parser"""

    def __init__(self, mod, toks, i=0):
        self.m, self.t, self.i = mod, toks, i

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x == "ptr":
            t = PTR
            if self.acc("addrspace"):
                self.exp("(")
                self.next()
                self.exp(")")
        elif x == "void":
            t = VOID
        elif x[0] == "%":
            t = self.m.named(x[1:].strip('"'))
        elif x == "[":
            n = int(self.next())
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = Ty("arr", n, e)
        elif x == "{":
            t = self._struct("}")
        elif x == "<":
            if self.acc("{"):
                t = self._struct("}")
                self.exp(">")
                t.packed = True
            else:
                n = int(self.next())
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = Ty("vec", n, e)
        elif x in FLT:
            t = Ty(x, name=x)
        elif x in ("label", "metadata", "token"):
            t = Ty(x)
        else:
            raise SyntaxError("type? " + x + " in " + " ".join(self.t))
        while self.peek() == "(" and False:
            pass
        return t

    def _struct(self, end):
        es = []
        if not self.acc(end):
            while True:
                es.append(self.type())
                if self.acc(end):
                    break
                self.exp(",")
        return Ty("st", e=es)

    def const(self, ty):
        """a constant or local operand of type ty"""
        x = self.next()
        c0 = x[0]
        if c0 == "%":
            return ("l", x[1:].strip('"'))
        if c0 == "@":
            return ("g", x[1:].strip('"'))
        if ty.k == "i":
            if x == "true":
                return ("c", 1)
            if x == "false":
                return ("c", 0)
            if x.lstrip("-").isdigit():
                return ("c", int(x) & ((1 << ty.n) - 1))
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "none":
            return ("undef",)
        if c0 == "c" and x[1:2] == '"':
            s = x[2:-1]
            out = bytearray()
            j = 0
            while j < len(s):
                if s[j] == "\\":
                    if s[j + 1] == "\\":
                        out.append(92)
                        j += 2
                    else:
                        out.append(int(s[j + 1:j + 3], 16))
                        j += 3
                else:
                    out.append(ord(s[j]))
                    j += 1
            return ("str", bytes(out))
        if x in ("[", "{", "<"):
            packed = False
            end = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.acc("{"):
                packed = True
                end = "}"
            r = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    r.append((t, self.const(t)))
                    if self.acc(end):
                        break
                    self.exp(",")
            if packed:
                self.exp(">")
            return ("agg", r)
        if ty.k in FLT:
            return ("f", x)
        if x == "blockaddress":
            raise NotImplementedError(x)
        if x in ("getelementptr",):
            fl = self.acc("inbounds")
            while self.peek() in ("nuw", "nusw", "inrange"):
                self.next()
                if self.acc("("):
                    while not self.acc(")"):
                        self.next()
            self.exp("(")
            bt = self.type()
            self.exp(",")
            ops = []
            while True:
                while self.peek() in ("inrange",):
                    self.next()
                t = self.type()
                ops.append((t, self.const(t)))
                if self.acc(")"):
                    break
                self.exp(",")
            return ("gep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.exp("(")
            t = self.type()
            v = self.const(t)
            self.exp("to")
            t2 = self.type()
            self.exp(")")
            return ("cast", x, t, v, t2)
        if x in ("sub", "add", "mul", "xor", "and", "or", "shl"):
            while self.peek() in ("nsw", "nuw"):
                self.next()
            self.exp("(")
            t = self.type()
            a = self.const(t)
            self.exp(",")
            t2 = self.type()
            b = self.const(t2)
            self.exp(")")
            return ("bin", x, t, a, b)
        if x == "dso_local_equivalent" or x == "no_cfi":
            return self.const(ty)
        raise SyntaxError("const? %s (%r) in %s" % (x, ty, " ".join(self.t[max(0, self.i - 20):self.i + 5])))

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTR:
                self.i += 1
            elif x == "byval":
                self.i += 1
                self.exp("(")
                self.bv = self.type()
                self.exp(")")
            elif x in PAREN_ATTR:
                self.i += 1
                if self.acc("("):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
                else:
                    self.next()  # align 8
            else:
                return

    def operand(self):
        t = self.type()
        self.bv = None
        self.attrs()
        if self.bv is not None:
            t = Ty("ptr", e=self.bv)
        if t.k == "metadata":
            # swallow
            d = 0
            while True:
                y = self.peek()
                if d == 0 and y in (",", ")"):
                    break
                d += (y in ("(", "{", "!{")) - (y in (")", "}"))
                self.i += 1
            return t, ("undef",)
        return t, self.const(t)


class Ins:
    __slots__ = ("op", "dst", "ty", "a", "line", "flags", "text", "src")

    def __init__(self, op, dst, text):
        self.op, self.dst, self.text = op, dst, text
        self.ty, self.a, self.line, self.flags = None, None, 0, ()


class Func:
    def __init__(self, mod, name, lines):
        self.m, self.name = mod, name
        p = P(mod, TOK.findall(lines[0]))
        while p.peek() != "@" + name and p.peek() != '@"%s"' % name:
            p.next()
        p.next()
        p.exp("(")
        self.params = []
        self.ptys = []
        self.vararg = False
        if not p.acc(")"):
            while True:
                if p.acc("..."):
                    self.vararg = True
                else:
                    t = p.type()
                    p.attrs()
                    nm = p.next() if p.peek() and p.peek()[0] == "%" else "%" + str(len(self.params))
                    self.params.append(nm[1:].strip('"'))
                    self.ptys.append(t)
                if p.acc(")"):
                    break
                p.exp(",")
        self.blocks = {}
        self.entry = None
        cur = None
        lab = re.compile(r'^("[^"]*"|[-\w.$]+):')
        k = 1
        n = len(lines)
        while k < n:
            L = lines[k]
            k += 1
            if not L or L.startswith(";"):
                continue
            if L[0] != " ":
                m = lab.match(L)
                if m:
                    cur = []
                    nm = m.group(1).strip('"')
                    if self.entry is None:
                        self.entry = nm
                    self.blocks[nm] = cur
                    continue
            if cur is None:
                cur = []
                self.entry = str(len(self.params))
                self.blocks[self.entry] = cur
            s = L.strip()
            if s.startswith("switch") and "]" not in s:
                while "]" not in lines[k]:
                    s += " " + lines[k].strip()
                    k += 1
                s += " " + lines[k].strip()
                k += 1
            # invoke continues on the next line; so do landingpad clauses
            while k < n and (lines[k].startswith("          ") or lines[k].startswith("\t")):
                s += " " + lines[k].strip()
                k += 1
            ins = self._ins(s)
            if ins is not None:
                cur.append(ins)

    def _ins(self, s):
        if s.startswith(("call void @llvm.dbg", "tail call void @llvm.dbg")) or s.startswith("#dbg"):
            return None
        line = 0
        loc = None
        j = s.rfind("!dbg !")
        if j >= 0:
            mm = re.match(r"!dbg (!\d+)", s[j:])
            line = self.m.lines.get(mm.group(1), 0)
            loc = mm.group(1)
        # strip metadata attachments: they all come at the end, after ", !"
        k = s.find(", !")
        body = s if k < 0 or s.startswith("call") and "metadata" in s else s[:k]
        toks = TOK.findall(body)
        p = P(self.m, toks)
        dst = None
        if len(toks) > 1 and toks[1] == "=":
            dst = toks[0][1:].strip('"')
            p.i = 2
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        ins = Ins(op, dst, body)
        ins.line = line
        if COV:
            ins.src = (self.m.dfile.get(self.m.sfile.get(self.m.lscope.get(loc))), line)
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "urem", "srem", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = []
            while p.peek() in ("nsw", "nuw", "exact", "disjoint", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
                               "reassoc", "fast"):
                fl.append(p.next())
            ins.flags = tuple(fl)
            ins.ty = p.type()
            a = p.const(ins.ty)
            p.exp(",")
            ins.a = (a, p.const(ins.ty))
        elif op in ("icmp", "fcmp"):
            while p.peek() in ("nnan", "ninf", "nsz", "fast"):
                p.next()
            ins.flags = p.next()
            ins.ty = p.type()
            a = p.const(ins.ty)
            p.exp(",")
            ins.a = (a, p.const(ins.ty))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui",
                    "fpext", "fptrunc"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            v = p.const(t)
            p.exp("to")
            ins.ty = p.type()
            ins.a = (t, v)
        elif op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ins.ty = p.type()
            p.exp(",")
            p.type()
            ins.a = (p.const(PTR),)
        elif op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ins.ty = p.type()
            v = p.const(ins.ty)
            p.exp(",")
            p.type()
            ins.a = (v, p.const(PTR))
        elif op == "alloca":
            p.acc("inalloca")
            ins.ty = p.type()
            n = None
            if p.acc(","):
                if p.peek() != "align":
                    t = p.type()
                    n = (t, p.const(t))
            al = re.search(r", align (\d+)", ins.text)
            ins.a = (n, int(al.group(1)) if al else 1)
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            ins.ty = p.type()
            p.exp(",")
            ops = []
            while True:
                ops.append(p.operand())
                if not p.acc(","):
                    break
            ins.a = ops
        elif op == "br":
            if p.acc("label"):
                ins.a = (p.next()[1:].strip('"'),)
            else:
                p.exp("i1")
                c = p.const(ity(1))
                p.exp(",")
                p.exp("label")
                x = p.next()[1:].strip('"')
                p.exp(",")
                p.exp("label")
                ins.a = (c, x, p.next()[1:].strip('"'))
        elif op == "switch":
            t = p.type()
            ins.ty = t
            v = p.const(t)
            p.exp(",")
            p.exp("label")
            d = p.next()[1:].strip('"')
            p.exp("[")
            cs = []
            while not p.acc("]"):
                p.type()
                c = p.const(t)
                p.exp(",")
                p.exp("label")
                cs.append((c[1], p.next()[1:].strip('"')))
            ins.a = (v, d, cs)
        elif op == "ret":
            t = p.type()
            ins.ty = t
            ins.a = (p.const(t),) if t.k != "void" else ()
        elif op == "phi":
            while p.peek() in ("nnan", "ninf", "nsz", "fast"):
                p.next()
            ins.ty = p.type()
            r = []
            while True:
                p.exp("[")
                v = p.const(ins.ty)
                p.exp(",")
                b = p.next()[1:].strip('"')
                p.exp("]")
                r.append((v, b))
                if not p.acc(","):
                    break
            ins.a = dict((b, v) for v, b in r)
        elif op == "select":
            p.type()
            c = p.const(ity(1))
            p.exp(",")
            ins.ty = p.type()
            a = p.const(ins.ty)
            p.exp(",")
            p.type()
            ins.a = (c, a, p.const(ins.ty))
        elif op in ("call", "invoke"):
            while p.peek() in ("fastcc", "ccc", "coldcc", "nnan", "ninf", "nsz", "fast"):
                p.next()
            p.attrs()
            ins.ty = p.type()
            if p.peek() == "(":
                # function type of a vararg call
                d = 0
                while True:
                    y = p.next()
                    d += (y == "(") - (y == ")")
                    if d == 0:
                        break
            callee = p.const(PTR) if p.peek() != "asm" else ("asm",)
            if callee == ("asm",):
                ins.op = "asm"
                ins.a = ()
                return ins
            p.exp("(")
            args = []
            if not p.acc(")"):
                while True:
                    args.append(p.operand())
                    if p.acc(")"):
                        break
                    p.exp(",")
            nx = uw = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.exp("to")
                p.exp("label")
                nx = p.next()[1:].strip('"')
                p.exp("unwind")
                p.exp("label")
                uw = p.next()[1:].strip('"')
            ins.a = (callee, args, nx, uw)
        elif op == "extractvalue":
            t = p.type()
            v = p.const(t)
            idx = []
            while p.acc(","):
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v, idx)
        elif op == "insertvalue":
            t = p.type()
            v = p.const(t)
            p.exp(",")
            t2 = p.type()
            v2 = p.const(t2)
            idx = []
            while p.acc(","):
                idx.append(int(p.next()))
            ins.ty = t
            ins.a = (v, t2, v2, idx)
        elif op == "landingpad":
            ins.ty = p.type()
            cl = []
            while p.peek():
                x = p.next()
                if x == "cleanup":
                    cl.append(("cleanup",))
                elif x == "catch":
                    t = p.type()
                    cl.append(("catch", p.const(t)))
                elif x == "filter":
                    t = p.type()
                    cl.append(("filter", p.const(t)))
            ins.a = cl
        elif op == "resume":
            t = p.type()
            ins.a = (t, p.const(t))
        elif op == "unreachable" or op == "fence":
            pass
        elif op == "freeze":
            ins.ty = p.type()
            ins.a = (p.const(ins.ty),)
        elif op == "fneg":
            while p.peek() in ("nnan", "ninf", "nsz", "fast", "contract"):
                p.next()
            ins.ty = p.type()
            ins.a = (p.const(ins.ty),)
        elif op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.next()
            p.type()
            a = p.const(PTR)
            p.exp(",")
            t = p.type()
            b = p.const(t)
            p.exp(",")
            p.type()
            ins.ty = t
            ins.a = (a, b, p.const(t))
        elif op == "atomicrmw":
            p.acc("volatile")
            o2 = p.next()
            p.type()
            a = p.const(PTR)
            p.exp(",")
            t = p.type()
            ins.ty = t
            ins.a = (o2, a, p.const(t))
        else:
            ins.op = "unsupported:" + op
        return ins
