"""LLVM IR (textual, clang 18, opaque pointers) parser.

Only what clang -O0 + mem2reg/lowerswitch emit for C is supported; anything else raises Unsupported, which the driver
turns into an undischarged obligation (never silently skipped).
"""
import re


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "el", "fields", "name", "packed")

    def __init__(self, k, n=0, el=None, fields=None, name=None, packed=False):
        self.k, self.n, self.el, self.fields, self.name, self.packed = k, n, el, fields, name, packed

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "named":
            return "%" + self.name
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.fields))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")


def I(n):
    return Ty("i", n)


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<global>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<hex>0x[KLMH]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("lex: %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class P:
    """token stream"""

    def __init__(self, s):
        self.t = lex(s)
        self.i = 0

    def peek(self, d=0):
        return self.t[self.i + d][1] if self.i + d < len(self.t) else None

    def kind(self, d=0):
        return self.t[self.i + d][0] if self.i + d < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise Unsupported("expected %r got %r in %r" % (v, self.peek(), self.t))


def parse_type(p):
    v = p.next()
    if re.fullmatch(r"i[0-9]+", v):
        t = I(int(v[1:]))
    elif v == "ptr":
        t = PTR
        if p.peek() == "addrspace":
            raise Unsupported("addrspace")
    elif v == "void":
        t = VOID
    elif v in ("double", "float", "x86_fp80", "half", "fp128"):
        t = Ty("fp", name=v)
    elif v in ("metadata", "label", "opaque"):
        t = Ty(v)
    elif v[0] == "%":
        t = Ty("named", name=v[1:].strip('"'))
    elif v == "[":
        n = int(p.next())
        p.expect("x")
        el = parse_type(p)
        p.expect("]")
        t = Ty("arr", n=n, el=el)
    elif v == "{" or v == "<":
        packed = False
        if v == "<":
            if p.peek() != "{":
                n = int(p.next())
                p.expect("x")
                el = parse_type(p)
                p.expect(">")
                return Ty("vec", n=n, el=el)
            p.expect("{")
            packed = True
        fs = []
        while not p.eat("}"):
            fs.append(parse_type(p))
            p.eat(",")
        if packed:
            p.expect(">")
        t = Ty("struct", fields=fs, packed=packed)
    else:
        raise Unsupported("type %r" % v)
    # function type "i32 (ptr, ...)"
    if p.peek() == "(" and t.k != "label":
        # only when followed by a type list; caller decides -> look ahead for function type
        save = p.i
        try:
            p.next()
            ok = True
            while not p.eat(")"):
                if p.eat("..."):
                    pass
                else:
                    parse_type(p)
                p.eat(",")
            # a function type must be followed by callee (@x/%x)
            if p.kind() in ("global", "local"):
                return Ty("fn", el=t)
            p.i = save
        except (Unsupported, IndexError):
            p.i = save
    return t


# ------------------------------------------------------------------ values
class Val:
    """operand: k in local, global, int, null, undef, zero, cexpr, agg, fp, str"""
    __slots__ = ("k", "v", "ty", "args")

    def __init__(self, k, v=None, ty=None, args=None):
        self.k, self.v, self.ty, self.args = k, v, ty, args

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
         "readnone", "returned", "immarg", "nofree", "swiftself", "nest", "noinline", "allocptr", "nounwind",
         "dso_local", "inbounds", "tail", "musttail", "notail", "fastcc", "ccc", "unnamed_addr", "local_unnamed_addr",
         "nuw", "nsw", "exact", "volatile", "disjoint", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
         "afn", "reassoc"}


def skip_attrs(p, flags=None):
    while True:
        v = p.peek()
        if v in ATTRS:
            if flags is not None:
                flags.add(v)
            p.next()
        elif v == "align":
            p.next()
            p.next()
        elif v in ("byval", "sret", "dereferenceable", "dereferenceable_or_null", "elementtype", "byref", "range",
                   "allocalign", "memory"):
            if flags is not None:
                flags.add(v)
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
        else:
            break


def parse_value(p, ty):
    k = p.kind()
    v = p.next()
    if k == "local":
        return Val("local", v[1:].strip('"'), ty)
    if k == "global":
        return Val("global", v[1:].strip('"'), ty)
    if k == "num":
        if ty.k == "i":
            return Val("int", int(v), ty)
        return Val("fp", v, ty)
    if k == "hex":
        return Val("fp", v, ty)
    if k == "str":
        raw = v[v.index('"') + 1:-1]
        bs = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == "\\":
                if raw[i + 1] == "\\":
                    bs.append(92)
                    i += 2
                else:
                    bs.append(int(raw[i + 1:i + 3], 16))
                    i += 3
            else:
                bs.append(ord(raw[i]))
                i += 1
        return Val("str", bytes(bs), ty)
    if v == "null":
        return Val("null", None, ty)
    if v in ("undef", "poison"):
        return Val("undef", None, ty)
    if v == "zeroinitializer":
        return Val("zero", None, ty)
    if v == "true":
        return Val("int", 1, ty)
    if v == "false":
        return Val("int", 0, ty)
    if v in ("{", "["):
        close = "}" if v == "{" else "]"
        xs = []
        while not p.eat(close):
            t = parse_type(p)
            xs.append(parse_value(p, t))
            p.eat(",")
        return Val("agg", None, ty, xs)
    if v == "<":
        p.expect("{")
        xs = []
        while not p.eat("}"):
            t = parse_type(p)
            xs.append(parse_value(p, t))
            p.eat(",")
        p.expect(">")
        return Val("agg", None, ty, xs)
    if v == "getelementptr":
        skip_attrs(p)
        p.expect("(")
        st = parse_type(p)
        p.expect(",")
        ops = parse_ops(p, ")")
        return Val("cexpr", "gep", ty, [st] + ops)
    if v in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext"):
        p.expect("(")
        t = parse_type(p)
        x = parse_value(p, t)
        p.expect("to")
        t2 = parse_type(p)
        p.expect(")")
        return Val("cexpr", v, t2, [x])
    if v in ("sub", "add"):
        skip_attrs(p)
        p.expect("(")
        ops = parse_ops(p, ")")
        return Val("cexpr", v, ty, ops)
    raise Unsupported("value %r" % v)


def parse_ops(p, close=None):
    """ty val, ty val ... up to close"""
    xs = []
    while True:
        if close and p.eat(close):
            break
        if p.peek() is None:
            break
        if p.kind() == "meta" or p.peek() == "align":
            break
        skip_attrs(p)
        t = parse_type(p)
        skip_attrs(p)
        xs.append(parse_value(p, t))
        if not p.eat(","):
            if close:
                p.expect(close)
            break
    return xs


# ------------------------------------------------------------------ module
class Instr:
    __slots__ = ("op", "dst", "ty", "ops", "x", "line", "flags")

    def __init__(self, op, dst=None, ty=None, ops=None, x=None, line=None, flags=None):
        self.op, self.dst, self.ty, self.ops, self.x, self.line, self.flags = op, dst, ty, ops or [], x, line, flags

    def __repr__(self):
        return "%s = %s %r %r" % (self.dst, self.op, self.ops, self.x)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []
        self.pred = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []  # (name, Ty, flags)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.vararg = False
        self.internal = False
        self.file = None
        self.dbg = None
        self.bad = None
        self.line = 0


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}  # name -> (ty, init Val or None, const?)
        self.funcs = {}
        self.bad = {}
        self.decls = {}
        self.md = {}
        self.aliases = {}
        self.enums = {}
        self.leaves = {}      # struct name -> [(byte offset, "ptr" or size)]
        self.fieldnames = {}  # struct name -> {member: byte offset}

    # ---- layout
    def resolve(self, t):
        while t.k == "named":
            if t.name not in self.types:
                raise Unsupported("opaque type %s" % t.name)
            t = self.types[t.name]
        return t

    def enum(self, name):
        """value of a C enumerator"""
        if not self.enums:
            for v in self.md.values():
                a = re.match(r'\s*!?DIEnumerator\(name: "([^"]*)", value: (-?\d+)', v)
                if a:
                    self.enums[a.group(1)] = int(a.group(2))
        return self.enums[name]

    def type_leaves(self, t, o=0):
        t = self.resolve(t)
        if t.k == "ptr":
            return [(o, "ptr")]
        if t.k == "struct":
            out, off = [], 0
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                off = (off + a - 1) // a * a
                out += self.type_leaves(f, o + off)
                off += self.size(f)
            return out
        if t.k == "i":
            return [(o, self.size(t))]
        return [(o, None)]

    def structname(self, s):
        """LLVM name of a C struct: the linker keeps one of several types of the same layout"""
        if "struct." + s in self.types:
            return s
        if s not in self.aliases:
            want = self.leaves.get(s)
            c = []
            for n in self.types:
                if n.startswith("struct."):
                    try:
                        if self.type_leaves(self.types[n]) == want:
                            c.append(n[7:])
                    except Unsupported:
                        pass
            if not want or len(c) != 1:
                raise Unsupported("unknown struct %s %r" % (s, c))
            self.aliases[s] = c[0]
        return self.aliases[s]

    def align(self, t):
        t = self.resolve(t)
        if t.k == "i":
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if t.k == "ptr":
            return 8
        if t.k == "fp":
            return {"double": 8, "float": 4, "x86_fp80": 16, "half": 2, "fp128": 16}[t.name]
        if t.k == "arr":
            return self.align(t.el)
        if t.k == "struct":
            if t.packed:
                return 1
            return max([self.align(f) for f in t.fields] or [1])
        raise Unsupported("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if t.k == "i":
            b = (t.n + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == "ptr":
            return 8
        if t.k == "fp":
            return {"double": 8, "float": 4, "x86_fp80": 16, "half": 2, "fp128": 16}[t.name]
        if t.k == "arr":
            return t.n * self.size(t.el)
        if t.k == "struct":
            off = 0
            for f in t.fields:
                if not t.packed:
                    a = self.align(f)
                    off = (off + a - 1) // a * a
                off += self.size(f)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise Unsupported("size %r" % t)

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t.fields):
            if not t.packed:
                a = self.align(f)
                off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += self.size(f)
        raise Unsupported("field")

    def scalars(self, t, base=0):
        """flatten: yields (byte offset, scalar type)"""
        r = self.resolve(t)
        if r.k == "struct":
            for j in range(len(r.fields)):
                o, f = self.field_off(r, j)
                yield from self.scalars(f, base + o)
        elif r.k == "arr":
            s = self.size(r.el)
            for j in range(r.n):
                yield from self.scalars(r.el, base + j * s)
        else:
            yield base, r


DBG = re.compile(r", !dbg !(\d+)")
TRAIL = re.compile(r", !(?!dbg)[a-zA-Z_.]+ !\d+")


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0
    N = len(lines)
    cur = None
    while i < N:
        ln = lines[i]
        if ln.startswith("define"):
            i = parse_func(m, lines, i)
            continue
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            if rest.strip() != "opaque":
                p = P(rest)
                m.types[name[1:].strip('"')] = parse_type(p)
        elif ln.startswith("@"):
            parse_global(m, ln)
        elif ln.startswith("declare"):
            mm = re.search(r"@([-a-zA-Z$._0-9]+)\(", ln)
            if mm:
                m.decls[mm.group(1)] = ln
        elif ln.startswith("!"):
            mm = re.match(r"!(\d+) = (.*)", ln)
            if mm:
                m.md[int(mm.group(1))] = mm.group(2)
        i += 1
    parse_debug(m)
    return m


def parse_global(m, ln):
    mm = re.match(r'@([-a-zA-Z$._0-9]+|"[^"]*") = (.*)', ln)
    name, rest = mm.group(1).strip('"'), mm.group(2)
    p = P(rest)
    ext = False
    const = False
    tls = False
    while True:
        v = p.peek()
        if v in ("private", "internal", "dso_local", "unnamed_addr", "local_unnamed_addr", "global", "constant",
                 "external", "common", "hidden", "weak", "linkonce_odr", "thread_local", "externally_initialized"):
            p.next()
            if v == "external":
                ext = True
            if v == "constant":
                const = True
            if v == "thread_local":
                tls = True
                if p.peek() == "(":
                    while p.next() != ")":
                        pass
            if v in ("global", "constant"):
                break
        else:
            return  # alias etc.
    ty = parse_type(p)
    init = None
    if not ext:
        init = parse_value(p, ty)
    m.globals[name] = (ty, init, const)


def parse_func(m, lines, i):
    ln = lines[i]
    mm = re.match(r"define (.*?)@([-a-zA-Z$._0-9]+)\((.*)$", ln)
    f = Func(mm.group(2))
    pre = mm.group(1)
    f.internal = "internal" in pre.split()
    p = P(pre)
    while True:
        skip_attrs(p)
        if p.peek() in ("internal", "hidden", "available_externally", "linkonce_odr", "weak", "dso_local", "private"):
            p.next()
        else:
            break
    f.ret = parse_type(p)
    d = re.search(r"!dbg !(\d+)", ln)
    if d:
        f.dbg = int(d.group(1))
    body = re.sub(r"!dbg !\d+", "", mm.group(3)).rstrip()
    body = body[:-1] if body.endswith("{") else body
    p = P(body)
    while not p.eat(")"):
        if p.eat("..."):
            f.vararg = True
            continue
        t = parse_type(p)
        fl = set()
        skip_attrs(p, fl)
        nm = p.next()
        f.params.append((nm[1:].strip('"'), t, fl))
        p.eat(",")
    i += 1
    j = i
    while lines[j] != "}":
        j += 1
    f.raw = lines[i:j + 1]
    m.funcs[f.name] = f
    return j + 1


def parse_body(f):
    if not hasattr(f, "raw"):
        return
    if f.bad:
        raise Unsupported("function %s: %s" % (f.name, f.bad))
    lines = f.raw
    i = 0
    blk = None
    while lines[i] != "}":
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s.startswith(";"):
            continue
        lab = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
        if lab:
            blk = Block(lab.group(1).strip('"'))
            f.blocks[blk.name] = blk
            f.order.append(blk.name)
            continue
        if blk is None:
            blk = Block("entry")
            f.blocks["entry"] = blk
            f.order.append("entry")
        if "@llvm.dbg." in s or "@llvm.lifetime" in s:
            continue
        if s.startswith("switch"):
            while "]" not in s:
                s += " " + lines[i].strip()
                i += 1
        line = None
        dm = DBG.search(s)
        if dm:
            line = int(dm.group(1))
            s = DBG.sub("", s)
        s = TRAIL.sub("", s)
        s = re.sub(r"\s*;.*$", "", s) if ";" in s and '"' not in s else s
        try:
            ins = parse_instr(s)
        except Unsupported as e:
            f.bad = str(e)
            raise Unsupported("function %s: %s" % (f.name, f.bad))
        ins.line = line
        blk.ins.append(ins)
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == "br":
            b.succ = list(t.x)
        elif t.op == "switch":
            b.succ = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            b.succ = []
        for s_ in dict.fromkeys(b.succ):
            f.blocks[s_].pred.append(b.name)
    del f.raw


def parse_instr(s):
    p = P(s)
    dst = None
    if p.kind() == "local" and p.peek(1) == "=":
        dst = p.next()[1:].strip('"')
        p.next()
    flags = set()
    skip_attrs(p, flags)
    op = p.next()
    if op == "call":
        skip_attrs(p, flags)
        rt = parse_type(p)
        if rt.k == "fn":
            rt = rt.el
        skip_attrs(p, flags)
        if p.kind() == "word" and p.peek() == "asm":
            raise Unsupported("inline asm")
        callee = parse_value(p, PTR)
        p.expect("(")
        args = []
        aflags = []
        while not p.eat(")"):
            t = parse_type(p)
            fl = set()
            skip_attrs(p, fl)
            if t.k == "metadata":
                while p.peek() not in (",", ")"):
                    p.next()
                args.append(None)
            else:
                args.append(parse_value(p, t))
            aflags.append(fl)
            p.eat(",")
        return Instr("call", dst, rt, args, x=callee, flags=flags)
    if op == "ret":
        t = parse_type(p)
        if t.k == "void":
            return Instr("ret", None, t)
        return Instr("ret", None, t, [parse_value(p, t)])
    if op == "br":
        if p.eat("label"):
            return Instr("br", x=[p.next()[1:].strip('"')])
        parse_type(p)
        c = parse_value(p, I(1))
        p.expect(",")
        p.expect("label")
        a = p.next()[1:].strip('"')
        p.expect(",")
        p.expect("label")
        b = p.next()[1:].strip('"')
        return Instr("br", None, None, [c], x=[a, b])
    if op == "switch":
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(",")
        p.expect("label")
        dflt = p.next()[1:].strip('"')
        p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = parse_type(p)
            cv = parse_value(p, ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv.v, p.next()[1:].strip('"')))
        return Instr("switch", None, t, [v], x=(dflt, cases))
    if op == "unreachable":
        return Instr("unreachable")
    if op == "alloca":
        skip_attrs(p, flags)
        t = parse_type(p)
        n = None
        if p.eat(","):
            if p.peek() != "align":
                nt = parse_type(p)
                n = parse_value(p, nt)
        return Instr("alloca", dst, PTR, [n] if n is not None else [], x=t)
    if op == "load":
        skip_attrs(p, flags)
        t = parse_type(p)
        p.expect(",")
        ops = parse_ops(p)
        return Instr("load", dst, t, ops)
    if op == "store":
        skip_attrs(p, flags)
        ops = parse_ops(p)
        return Instr("store", None, ops[0].ty, ops)
    if op == "getelementptr":
        skip_attrs(p, flags)
        t = parse_type(p)
        p.expect(",")
        return Instr("gep", dst, PTR, parse_ops(p), x=t, flags=flags)
    if op in ("icmp", "fcmp"):
        skip_attrs(p)
        pred = p.next()
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect(",")
        b = parse_value(p, t)
        return Instr(op, dst, I(1), [a, b], x=pred)
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
              "fadd", "fsub", "fmul", "fdiv", "frem"):
        skip_attrs(p, flags)
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect(",")
        b = parse_value(p, t)
        return Instr("bin", dst, t, [a, b], x=op, flags=flags)
    if op == "fneg":
        t = parse_type(p)
        a = parse_value(p, t)
        return Instr("fneg", dst, t, [a])
    if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui",
              "fpext", "fptrunc"):
        skip_attrs(p, flags)
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect("to")
        t2 = parse_type(p)
        return Instr("cast", dst, t2, [a], x=op)
    if op == "select":
        ops = parse_ops(p)
        return Instr("select", dst, ops[1].ty, ops)
    if op == "phi":
        t = parse_type(p)
        inc = []
        while True:
            p.expect("[")
            v = parse_value(p, t)
            p.expect(",")
            l = p.next()[1:].strip('"')
            p.expect("]")
            inc.append((v, l))
            if not p.eat(","):
                break
        return Instr("phi", dst, t, [v for v, _ in inc], x=[l for _, l in inc])
    if op == "freeze":
        t = parse_type(p)
        return Instr("freeze", dst, t, [parse_value(p, t)])
    if op in ("extractvalue", "insertvalue", "fence", "cmpxchg", "atomicrmw", "va_arg"):
        return Instr(op, dst, None, [], x=s)
    raise Unsupported("instr %s" % s)


def parse_debug(m):
    md = m.md
    m.lines = {}
    for k, v in md.items():
        if v.startswith("!DILocation") or v.startswith("distinct !DILocation"):
            a = re.search(r"line: (\d+)", v)
            m.lines[k] = int(a.group(1)) if a else 0
    files = {}
    for k, v in md.items():
        if "!DIFile(" in v:
            files[k] = re.search(r'filename: "([^"]*)"', v).group(1)
    for f in m.funcs.values():
        if f.dbg is not None:
            s = md.get(f.dbg, "")
            a = re.search(r"file: !(\d+)", s)
            if a:
                f.file = files.get(int(a.group(1)))
            a = re.search(r"line: (\d+)", s)
            f.line = int(a.group(1)) if a else 0

    def members(node, base, out, depth=0):
        s = md.get(node, "")
        a = re.search(r"elements: !(\d+)", s)
        if not a:
            return
        for e in re.findall(r"!(\d+)", md.get(int(a.group(1)), "")):
            t = md.get(int(e), "")
            if "DW_TAG_member" not in t:
                continue
            nm = re.search(r'name: "([^"]*)"', t)
            off = re.search(r"offset: (\d+)", t)
            o = base + (int(off.group(1)) // 8 if off else 0)
            bt = re.search(r"baseType: !(\d+)", t)
            if nm:
                out.setdefault(nm.group(1), o)
            if bt and depth < 4:
                b = int(bt.group(1))
                bs = md.get(b, "")
                while "DW_TAG_typedef" in bs:
                    b2 = re.search(r"baseType: !(\d+)", bs)
                    if not b2:
                        break
                    b = int(b2.group(1))
                    bs = md.get(b, "")
                if "DW_TAG_structure_type" in bs or "DW_TAG_union_type" in bs:
                    sub = {}
                    members(b, o, sub, depth + 1)
                    for n2, o2 in sub.items():
                        if nm:
                            out.setdefault(nm.group(1) + "." + n2, o2)
                        else:
                            out.setdefault(n2, o2)

    def leaves(b, o, out):
        bs = md.get(b, "")
        while "DW_TAG_typedef" in bs or "DW_TAG_const_type" in bs or "DW_TAG_volatile_type" in bs:
            b2 = re.search(r"baseType: !(\d+)", bs)
            b = int(b2.group(1)) if b2 else -1
            bs = md.get(b, "")
        sz = re.search(r"size: (\d+)", bs)
        if "DW_TAG_structure_type" in bs:
            a = re.search(r"elements: !(\d+)", bs)
            for e in re.findall(r"!(\d+)", md.get(int(a.group(1)), "")) if a else []:
                t = md.get(int(e), "")
                bt = re.search(r"baseType: !(\d+)", t)
                off = re.search(r"offset: (\d+)", t)
                if "DW_TAG_member" in t and bt:
                    leaves(int(bt.group(1)), o + (int(off.group(1)) // 8 if off else 0), out)
        elif "DW_TAG_pointer_type" in bs:
            out.append((o, "ptr"))
        elif sz and ("DIBasicType" in bs or "DW_TAG_enumeration_type" in bs):
            out.append((o, int(sz.group(1)) // 8))
        else:
            out.append((o, None))

    for k, v in md.items():
        if "DW_TAG_typedef" in v:
            nm = re.search(r'name: "([^"]*)"', v)
            bt = re.search(r"baseType: !(\d+)", v)
            if nm and bt and "DW_TAG_structure_type" in md.get(int(bt.group(1)), ""):
                if nm.group(1) not in m.fieldnames:
                    out = {}
                    members(int(bt.group(1)), 0, out)
                    m.fieldnames[nm.group(1)] = out
                    m.leaves[nm.group(1)] = []
                    leaves(int(bt.group(1)), 0, m.leaves[nm.group(1)])
        if "DW_TAG_structure_type" in v:
            nm = re.search(r'name: "([^"]*)"', v)
            if nm and nm.group(1) not in m.fieldnames:
                out = {}
                members(k, 0, out)
                m.fieldnames[nm.group(1)] = out


# ------------------------------------------------------------------ CFG analyses
class Loop:
    def __init__(self, header):
        self.header = header
        self.body = set([header])
        self.latches = []
        self.parent = None


def analyse(f):
    """reverse postorder, dominators, natural loops"""
    if hasattr(f, "rpo"):
        return
    parse_body(f)
    entry = f.order[0]
    seen = set()
    post = []
    stack = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        f.blocks[b].pred = [x for x in f.blocks[b].pred if x in idx]
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in f.blocks[b].pred:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported("irreducible loop in %s" % f.name)
                l = loops.setdefault(s, Loop(s))
                l.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l.body:
                        l.body.add(x)
                        work.extend(f.blocks[x].pred)
    ls = sorted(loops.values(), key=lambda l: len(l.body))
    for i, l in enumerate(ls):
        for o in ls[i + 1:]:
            if l.header in o.body and o is not l:
                l.parent = o
                break
    f.rpo, f.idom, f.loops, f.rpoidx = rpo, idom, loops, idx
