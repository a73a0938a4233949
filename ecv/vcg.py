"""Verification condition generation over LLVM IR.

A *unit* is one function of /repo checked against its contract.  The body is executed symbolically block by block in
topological order with state merging at joins; loops are cut at their headers: the header state is havocked (phis and
every memory class the body may write), candidate invariants are assumed under activation literals (Houdini) and have
to hold on entry and after every back edge.  Calls use the callee's contract when there is one and are inlined when
the callee is a helper without contract.

Memory model: an address is (object, offset); memory is split in classes by access type and, for struct fields, by
(struct, field offset) (Burstall-Bornat); every class is an array object -> offset -> value.
"""
import re
import z3
from . import ir
from .ir import Unsupported

BV64 = z3.BitVecSort(64)
INT = z3.IntSort()
V = z3.DeclareSort("V")
FPS = z3.DeclareSort("FP")
_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def bv(n, w=64):
    return z3.BitVecVal(n, w)


ZERO = bv(0)


def simp(e):
    return z3.simplify(e)


class Ptr:
    __slots__ = ("o", "f", "tag")

    def __init__(self, o, f=None, tag=None):
        self.o = o
        self.f = ZERO if f is None else f
        self.tag = tag

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.o, self.f, self.tag)


NULLO = z3.IntVal(0)


def null():
    return Ptr(NULLO, ZERO)


def isnull(p):
    return z3.And(p.o == 0, p.f == 0)


def notnull(p):
    return z3.Not(isnull(p))


def peq(a, b):
    if a.o.eq(b.o) and a.f.eq(b.f):
        return z3.BoolVal(True)
    return z3.And(a.o == b.o, a.f == b.f)


def b2i(b, w):
    return z3.If(b, bv(1, w), bv(0, w))


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys.extend(x)
        else:
            ys.append(x)
    ys = [y for y in ys if not is_true(y)]
    if any(is_false(y) for y in ys):
        return z3.BoolVal(False)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            ys.extend(x)
        else:
            ys.append(x)
    ys = [y for y in ys if not is_false(y)]
    if any(is_true(y) for y in ys):
        return z3.BoolVal(True)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if is_true(x):
        return z3.BoolVal(False)
    if is_false(x):
        return z3.BoolVal(True)
    return z3.Not(x)


def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def Ite(c, a, b):
    """ite over any symbolic value"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a.o.eq(b.o) and a.f.eq(b.f):
            return Ptr(a.o, a.f, a.tag if a.tag == b.tag else None)
        if is_true(c):
            return a
        if is_false(c):
            return b
        tag = a.tag
        if a.tag != b.tag:
            if z3.is_int_value(a.o) and a.o.as_long() == 0:
                tag = b.tag
            elif z3.is_int_value(b.o) and b.o.as_long() == 0:
                tag = a.tag
            else:
                tag = "MIXED"
        return Ptr(z3.If(c, a.o, b.o), a.f if a.f.eq(b.f) else z3.If(c, a.f, b.f), tag)
    if isinstance(a, tuple):
        return tuple(Ite(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a if b is None else b
    if a.eq(b):
        return a
    if is_true(c):
        return a
    if is_false(c):
        return b
    return z3.If(c, a, b)


class State:
    __slots__ = ("pc", "mem", "next", "ghost")

    def __init__(self, pc, mem, next, ghost):
        self.pc, self.mem, self.next, self.ghost = pc, mem, next, ghost

    def copy(self):
        return State(self.pc, dict(self.mem), self.next, dict(self.ghost))


class Obl:
    def __init__(self, name, pc, goal, nf, line, kind, cand=None, triggers=None, nq=0):
        self.name, self.pc, self.goal, self.nf, self.line, self.kind, self.cand = name, pc, goal, nf, line, kind, cand
        self.triggers = triggers or []
        self.nq = nq
        self.status = None


class QFact:
    """guarded universally quantified fact, instantiated by hand: forall k of sort: body(k)"""

    def __init__(self, guard, sort, body, act=None, key=None):
        self.guard, self.sort, self.body, self.act, self.key = guard, sort, body, act, key


class Cand:
    def __init__(self, name, act, loop):
        self.name, self.act, self.loop = name, act, loop
        self.alive = True


class Forall:
    """quantified goal/assumption: forall k: sort. body(k); key groups which trigger terms apply"""

    def __init__(self, sort, body, key=None, n=1):
        self.sort, self.body, self.key, self.n = sort, body, key, n


class Frame:
    def __init__(self, f, args, depth, va=None):
        self.f, self.args, self.depth = f, args, depth
        self.env = {}
        self.va = va
        self.stack = ()


class LoopInfo:
    """what a template sees"""

    def __init__(self, cx, fr, L):
        self.cx, self.fr, self.L = cx, fr, L
        self.phis = []  # list of dict(name, ty, entry, head)
        self.entry = None
        self.head = None
        self.bounds = []  # loop-invariant ints compared in the loop
        self.written = {}


class Snap:
    """a program point at which a candidate is evaluated: state + phi values (by name)"""

    def __init__(self, st, phi):
        self.st, self.phi = st, phi


class Ctx:
    def __init__(self, mod, contracts=None, opts=None):
        self.mod = mod
        self.contracts = contracts or {}
        self.opts = dict(memsafe=False, nsw=False, maxdepth=12)
        if opts:
            self.opts.update(opts)
        self.facts = []
        self.gfacts = []
        self.frame_stack = []
        self.zero_real = None
        self.qfacts = []
        self.obls = []
        self.cands = []
        self.dry = 0
        self.written = None
        self.classes = {}
        self.gobj = {}
        self.next_gobj = 1
        self.fobj = {}
        self.obj2fn = {}
        self.triggers = {}  # key -> list of terms
        self.templates = []
        self.zeroed = []
        self.callstack = []
        self.frames = []
        self.candnames = {}
        self.exact_unrolls = 0
        self.bounded_cut = False
        self.lemmas = None
        self.u = {}
        self.used_contracts = set()
        self.inlined = set()
        self.unknown = set()
        self.assumed = set()
        self.nobl = {}
        self.mem0 = {}
        self.indirect = None
        self.loopinfos = []
        self.final = {}
        self.line = None
        self.entry_next = z3.Int("next0")
        self.addr = z3.Function("addr", INT, BV64)
        self.size = z3.Function("size", INT, BV64)
        self.constinit = set()
        self.hooks = {}
        self.curpc = z3.BoolVal(True)
        self.allocd = {}
        self.pcs = []   # the path conditions in order of creation: (constant, kind, parent(s), sibling)
        self.fact(z3.BoolVal(True), self.entry_next >= 1000000)
        self.fact(z3.BoolVal(True), self.size(NULLO) == ZERO)

    # ---------------------------------------------------------------- facts / obligations
    def fact(self, pc, f):
        """f holds whenever pc does.  Facts stated without a path condition (about objects the current instruction makes)
        hold on the path that makes them: objects made on exclusive paths may share a number"""
        if is_true(f):
            return
        if is_true(pc):
            pc = self.curpc
        self.facts.append(Implies(pc, f))

    def assume(self, st, f, act=None):
        if isinstance(f, Forall):
            pc = self.curpc if is_true(st.pc) else st.pc
            self.qfacts.append(QFact(pc if act is None else And(pc, act), f.sort, f.body, act, f.key))
            self.qfacts[-1].nf = len(self.facts)
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(st, x, act)
            return
        self.fact(st.pc if act is None else And(st.pc, act), f)

    def oblige(self, st, goal, name, kind="assert", cand=None):
        if self.dry:
            return
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                self.oblige(st, g, name + ("" if len(goal) == 1 else ".%d" % i), kind, cand)
            return
        trig = []
        if isinstance(goal, Forall):
            ks = [z3.Const(fresh_name("sk"), goal.sort) for _ in range(goal.n)]
            trig = [(goal.key, k) for k in ks]
            g = goal.body(*ks)
            goal = g
        if is_true(goal):
            pass
        n = self.nobl.get(name, 0)
        self.nobl[name] = n + 1
        nm = name if n == 0 else "%s#%d" % (name, n)
        self.obls.append(Obl(nm, st.pc, goal, len(self.facts), self.curline(), kind, cand, trig, len(self.qfacts)))

    def trigger(self, term, key=None):
        self.triggers.setdefault(key, [])
        if not any(t.eq(term) for t in self.triggers[key]):
            self.triggers[key].append(term)

    def curline(self):
        if self.line is None:
            return None
        f = self.callstack[-1] if self.callstack else None
        return (f, self.mod.lines.get(self.line, 0))

    # ---------------------------------------------------------------- objects
    def global_obj(self, name):
        if name in self.mod.funcs or name in self.mod.decls or name in self.mod.bad:
            if name not in self.fobj:
                self.fobj[name] = self.next_gobj
                self.obj2fn[self.next_gobj] = name
                self.next_gobj += 1
            return z3.IntVal(self.fobj[name])
        if name not in self.gobj:
            self.gobj[name] = self.next_gobj
            self.next_gobj += 1
        o = z3.IntVal(self.gobj[name])
        if name in self.mod.globals and name not in self.constinit:
            self.constinit.add(name)
            ty, init, const = self.mod.globals[name]
            try:
                self.gfacts.append(self.size(o) == bv(self.mod.size(ty)))
            except Unsupported:
                pass
        return o

    def fn_ptr(self, name):
        return Ptr(self.global_obj(name))

    def alloc(self, st, size=None, zero=False, name="obj"):
        nx = simp(st.next)
        simple = z3.is_const(nx) or (z3.is_add(nx) and nx.num_args() == 2)
        if simple:
            o = nx
        else:
            o = z3.Int(fresh_name(name))
            self.fact(z3.BoolVal(True), o == nx)
        st.next = simp(o + 1)
        self.allocd[o.get_id()] = o
        if size is not None:
            self.fact(z3.BoolVal(True), self.size(o) == size)
        if "$alive" in st.mem:
            self.setmem(st, "$alive", z3.Store(st.mem["$alive"], o, z3.BoolVal(True)), o)
        if self.written is not None:
            self.written.setdefault("$alloc", []).append(o)
        if zero:
            for c in list(self.classes):
                self.zero_obj(st, c, o)
            self.zeroed.append(o)
        return o

    def zero_obj(self, st, c, o):
        if c.startswith("$"):
            return
        s = self.classes[c]
        m = self.getmem(st, c)
        if self.written is not None:
            self.written.setdefault(c, []).append(o)
        st.mem[c] = z3.Store(m, o, z3.K(BV64, self.zero_of(s)))

    @staticmethod
    def zero_of(s):
        if s == INT:
            return z3.IntVal(0)
        if z3.is_bv_sort(s):
            return z3.BitVecVal(0, s.size())
        return z3.Const("zero_%s" % s, s)

    # ---------------------------------------------------------------- memory
    def declare_class(self, c, s):
        if c not in self.classes:
            self.classes[c] = s
            m0 = z3.Array("M0_" + c, INT, z3.ArraySort(BV64, s))
            self.mem0[c] = m0

    def getmem(self, st, c):
        if c not in st.mem:
            # created lazily: initial memory; objects calloc'd before are zero
            m0 = self.mem0[c]
            if c not in self.final:
                self.final[c] = True
                for o in (self.zeroed if self.zero_real is None else self.zeroed[:self.zero_real]):
                    self.gfacts.append(z3.Select(m0, o) == z3.K(BV64, self.zero_of(self.classes[c])))
            st.mem[c] = m0
        return st.mem[c]

    def setmem(self, st, c, m, o):
        if self.written is not None:
            self.written.setdefault(c, []).append(o)
        if not self.dry:
            for lname, written, frames in self.frame_stack:
                if c not in written:
                    raise Unsupported("loop frame: class %s written unexpectedly in %s" % (c, lname))
                fr = frames.get(c)
                if fr is None:
                    continue
                if o is None:
                    raise Unsupported("loop frame: class %s havocked in %s" % (c, lname))
                stable, nx = fr
                if any(o.eq(x) for x in stable):
                    continue
                g = simp(Or(*([o == x for x in stable] + ([o >= nx] if nx is not None else []))))
                if not is_true(g):
                    self.oblige(st, g, "loop-frame:%s:%s" % (lname, c), "frame")
        st.mem[c] = m

    # reading over writes: stores to other objects are skipped (two different allocations on one path, or two different
    # globals, are different objects), joins are distributed
    def distinct(self, a, b):
        if a.eq(b):
            return False
        na, nb = z3.is_int_value(a), z3.is_int_value(b)
        if na and nb:
            return True
        ia, ib = a.get_id() in self.allocd, b.get_id() in self.allocd
        return (ia or na) and (ib or nb)

    def row(self, m, o):
        """the row of object o in memory m"""
        memo = {}

        def go(m):
            i = m.get_id()
            if i in memo:
                return memo[i][1]
            x = m
            while z3.is_app_of(x, z3.Z3_OP_STORE):
                if x.arg(1).eq(o):
                    break
                if not self.distinct(x.arg(1), o):
                    break
                x = x.arg(0)
            if z3.is_app_of(x, z3.Z3_OP_STORE) and x.arg(1).eq(o):
                r = x.arg(2)
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                a, b = go(x.arg(1)), go(x.arg(2))
                r = a if a.eq(b) else z3.If(x.arg(0), a, b)
            else:
                r = z3.Select(x, o)
            memo[i] = (m, r)
            return r
        if z3.is_app_of(o, z3.Z3_OP_ITE):
            a, b = self.row(m, o.arg(1)), self.row(m, o.arg(2))
            return a if a.eq(b) else z3.If(o.arg(0), a, b)
        return go(m)

    def read(self, m, o, f):
        memo = {}
        f = simp(f)

        def go(r):
            i = r.get_id()
            if i in memo:
                return memo[i][1]
            x = r
            hit = None
            while z3.is_app_of(x, z3.Z3_OP_STORE):
                k = x.arg(1)
                if k.eq(f):
                    hit = x.arg(2)
                    break
                d = simp(k - f)
                if not z3.is_bv_value(d):
                    break
                if d.as_long() == 0:
                    hit = x.arg(2)
                    break
                x = x.arg(0)
            if hit is not None:
                v = hit
            elif z3.is_app_of(x, z3.Z3_OP_ITE):
                a, b = go(x.arg(1)), go(x.arg(2))
                v = a if a.eq(b) else z3.If(x.arg(0), a, b)
            elif z3.is_K(x):
                v = x.arg(0)
            else:
                v = z3.Select(x, f)
            memo[i] = (r, v)
            return v
        return simp(go(self.row(m, o)))

    def cls(self, p, ty):
        """class key(s) and offset for an access of type ty through p"""
        if ty.k == "i":
            w = max(8, (ty.n + 7) // 8 * 8)
            suffix = "i%d" % w
            sorts = [("", z3.BitVecSort(w))]
        elif ty.k == "ptr":
            suffix = "ptr"
            sorts = [(".o", INT), (".f", BV64)]
        elif ty.k == "fp":
            suffix = "fp"
            sorts = [("", FPS)]
        else:
            raise Unsupported("access type %r" % ty)
        if p.tag == "MIXED":
            raise Unsupported("pointer to fields of different structs")
        pre = "%s@%d:" % p.tag if p.tag else ""
        out = []
        for sfx, s in sorts:
            c = pre + suffix + sfx
            self.declare_class(c, s)
            out.append(c)
        return out

    def check_access(self, st, p, n, what):
        if not self.opts["memsafe"] or self.dry:
            return
        off = p.f
        if p.tag:
            off = off + bv(p.tag[1])
        ok = And(p.o != 0, z3.ULE(bv(n), self.size(p.o)), z3.ULE(off, self.size(p.o) - bv(n)))
        if "$alive" in st.mem and not z3.is_int_value(p.o):
            ok = And(ok, z3.Or(p.o < 1000000, z3.Select(st.mem["$alive"], p.o)))
        self.oblige(st, ok, "memory-%s-in-bounds" % what, "mem")

    def load(self, st, p, ty, check=True):
        ty = self.mod.resolve(ty) if ty.k == "named" else ty
        if check:
            self.check_access(st, p, self.mod.size(ty), "read")
        cs = self.cls(p, ty)
        if z3.is_int_value(p.o):
            r = self.const_load(p, ty)
            if r is not None:
                return r
        h = self.hooks.get("load")
        if h:
            r = h(self, st, p, ty)
            if r is not None:
                return r
        if check and ty.k == "ptr" and "ptr_trig" in self.opts:
            r = self.opts["ptr_trig"](self, st, p)
            if r is not None:
                return r
        if not self.dry and check and self.opts.get("auto_trig") and ty.k == "i" and ty.n == 8 and not z3.is_bv_value(p.f):
            self.trigger(simp(p.f), "idx")
        vals = [self.read(self.getmem(st, c), p.o, p.f) for c in cs]
        if ty.k == "ptr":
            r = Ptr(vals[0], vals[1])
            if not z3.is_int_value(vals[0]):
                self.fact(st.pc, z3.And(vals[0] >= 0, vals[0] < st.next))
            return r
        v = vals[0]
        if ty.k == "i" and ty.n < v.size():
            v = z3.Extract(ty.n - 1, 0, v)
            if ty.n == 1:
                return v == 1
        return v

    def store(self, st, p, v, ty, check=True):
        ty = self.mod.resolve(ty) if ty.k == "named" else ty
        if check:
            self.check_access(st, p, self.mod.size(ty), "write")
        cs = self.cls(p, ty)
        h = self.hooks.get("store")
        if h:
            h(self, st, p, v, ty)
        if ty.k == "ptr":
            vals = [v.o, v.f]
            if v.tag and v.tag[0] in self.opts.get("escape", ()):
                # address of a struct field stored in memory: kept as a plain address (the unit declares that the code
                # under verification does not read the field through it)
                vals = [v.o, simp(v.f + bv(v.tag[1]))]
            elif v.tag:
                # address of a struct field stored in memory: the tag is lost
                if not self.dry:
                    self.oblige(st, z3.BoolVal(False), "unsupported-escaping-field-address", "unsupported")
        else:
            if ty.k == "i":
                if z3.is_bool(v):
                    v = b2i(v, 8)
                w = self.classes[cs[0]].size()
                if v.size() < w:
                    v = z3.ZeroExt(w - v.size(), v)
            vals = [v]
        for c, x in zip(cs, vals):
            m = self.getmem(st, c)
            inner = z3.Store(self.row(m, p.o), p.f, x)
            self.setmem(st, c, simp_store(m, p.o, simp(inner)), p.o)

    def const_load(self, p, ty):
        """load from a constant global at a constant offset"""
        o = p.o.as_long()
        name = next((n for n, x in self.gobj.items() if x == o), None)
        if name is None or name not in self.mod.globals:
            return None
        gty, init, const = self.mod.globals[name]
        if not const and not self.opts.get("globals_const", {}).get(name):
            return None
        off = p.f
        if not z3.is_bv_value(off):
            off = simp(off)
            if not z3.is_bv_value(off):
                return None
        k = off.as_long() + (p.tag[1] if p.tag else 0)
        return self.init_at(gty, init, k, ty)

    def init_at(self, gty, init, k, ty):
        if init is None:
            return None
        t = self.mod.resolve(gty)
        if init.k == "zero":
            if ty.k == "ptr":
                return null()
            if ty.k == "i":
                return bv(0, ty.n) if ty.n > 1 else z3.BoolVal(False)
            return None
        if t.k == "arr":
            s = self.mod.size(t.el)
            if init.k == "str":
                if ty.k == "i" and ty.n == 8 and k < len(init.v):
                    return bv(init.v[k], 8)
                return None
            i, r = divmod(k, s)
            if i >= len(init.args):
                return None
            return self.init_at(t.el, init.args[i], r, ty)
        if t.k == "struct":
            for j in range(len(t.fields)):
                o, ft = self.mod.field_off(t, j)
                if o <= k < o + self.mod.size(ft):
                    return self.init_at(ft, init.args[j], k - o, ty)
            return None
        if k != 0 or t.k != ty.k:
            return None
        return self.const_val(init)

    def const_val(self, v):
        if v.k == "int":
            if v.ty.n == 1:
                return z3.BoolVal(bool(v.v & 1))
            return bv(v.v, v.ty.n)
        if v.k == "null":
            return null()
        if v.k == "global":
            return Ptr(self.global_obj(v.v))
        if v.k == "undef":
            return self.fresh(v.ty, "undef")
        if v.k == "zero":
            t = self.mod.resolve(v.ty)
            if t.k == "ptr":
                return null()
            if t.k == "i":
                return bv(0, t.n)
            return self.fresh(v.ty, "zero")
        if v.k == "fp":
            return z3.Const("fp_%s" % v.v, FPS)
        if v.k == "cexpr":
            if v.v == "gep":
                return self.gep(v.args[0], [self.const_val(x) if x.k != "int" else x for x in v.args[1:]], None)
            if v.v == "inttoptr":
                x = v.args[0]
                if x.k == "int":
                    return Ptr(NULLO, bv(x.v))
            if v.v == "bitcast":
                return self.const_val(v.args[0])
        raise Unsupported("constant %r" % v)

    def fresh(self, ty, name="v"):
        ty = self.mod.resolve(ty) if ty.k == "named" else ty
        nm = fresh_name(name)
        if ty.k == "i":
            if ty.n == 1:
                return z3.Bool(nm)
            return z3.BitVec(nm, ty.n)
        if ty.k == "ptr":
            return Ptr(z3.Int(nm + ".o"), z3.BitVec(nm + ".f", 64))
        if ty.k == "fp":
            return z3.Const(nm, FPS)
        if ty.k == "struct":
            return tuple(self.fresh(f, name) for f in ty.fields)
        raise Unsupported("fresh %r" % ty)

    def fresh_ptr(self, st, name="p"):
        p = self.fresh(ir.PTR, name)
        self.fact(z3.BoolVal(True), z3.And(p.o >= 0, p.o < st.next))
        return p

    # ---------------------------------------------------------------- struct field helpers for contracts
    def fptr(self, p, struct, member):
        if member is None:
            return p
        off = member if isinstance(member, int) else self.mod.fieldnames[struct][member]
        return Ptr(p.o, p.f, ("struct." + self.structname(struct), off))

    def structname(self, s):
        return self.mod.structname(s)

    def getf(self, st, p, struct, member, ty=ir.PTR):
        return self.load(st, self.fptr(p, struct, member), ty, check=False)

    def setf(self, st, p, struct, member, v, ty=ir.PTR):
        self.store(st, self.fptr(p, struct, member), v, ty, check=False)

    def glob(self, name):
        return Ptr(self.global_obj(name))

    # ---------------------------------------------------------------- operands
    def val(self, fr, v):
        if v.k == "local":
            if v.v not in fr.env:
                raise Unsupported("use before def %s in %s" % (v.v, fr.f.name))
            return fr.env[v.v]
        return self.const_val(v)

    def as_index(self, fr, v):
        if isinstance(v, ir.Val):
            if v.k == "int":
                return bv(v.v)
            x = self.val(fr, v)
        else:
            x = v
        if x.size() < 64:
            x = z3.SignExt(64 - x.size(), x)
        return x

    def gep(self, sty, ops, fr):
        base = ops[0]
        if isinstance(base, ir.Val):
            base = self.val(fr, base)
        t = sty
        tag = base.tag
        off = base.f
        idx = ops[1:]
        first = True
        o = base.o
        for v in idx:
            if first:
                s = self.mod.size(t)
                i = self.as_index(fr, v)
                off = off + i * bv(s)
                first = False
                continue
            rt = self.mod.resolve(t)
            if rt.k == "struct":
                j = v.v if isinstance(v, ir.Val) else simp(v).as_long()
                fo, ft = self.mod.field_off(rt, j)
                if tag is None:
                    nm = t.name if t.k == "named" else "anon"
                    tag = (nm, fo)
                elif tag != "MIXED":
                    tag = (tag[0], tag[1] + fo)
                t = ft
            elif rt.k == "arr":
                s = self.mod.size(rt.el)
                off = off + self.as_index(fr, v) * bv(s)
                t = rt.el
            else:
                raise Unsupported("gep into %r" % rt)
        return Ptr(o, simp(off), tag)

    # ---------------------------------------------------------------- merging
    def merge(self, sts):
        """sts: list of State -> merged State"""
        if len(sts) == 1:
            return sts[0].copy()
        pcs = [s.pc for s in sts]
        b = z3.Bool(fresh_name("pc"))
        d = simp(Or(*pcs))
        if is_true(d) or is_false(d) or (z3.is_const(d)):
            b = d
        else:
            self.facts.append(b == d)
            self.pcs.append((b, "merge", pcs, None))
        out = State(b, {}, None, {})
        nx = sts[-1].next
        for s in sts[-2::-1]:
            nx = Ite(s.pc, s.next, nx)
        if not nx.eq(sts[0].next):
            n = z3.Int(fresh_name("next"))
            self.facts.append(n == nx)
            # monotone
            nx = n
        out.next = nx
        keys = set()
        for s in sts:
            keys |= set(s.mem)
        for c in keys:
            ms = [s.mem[c] if c in s.mem else (self.getmem(s, c)) for s in sts]
            m = ms[-1]
            for s, x in zip(sts[-2::-1], ms[-2::-1]):
                if not x.eq(m):
                    m = z3.If(s.pc, x, m)
            out.mem[c] = m
        gk = set()
        for s in sts:
            gk |= set(s.ghost)
        for k in gk:
            gs = [s.ghost.get(k) for s in sts]
            g = gs[-1]
            for s, x in zip(sts[-2::-1], gs[-2::-1]):
                g = Ite(s.pc, x, g)
            out.ghost[k] = g
        return out

    # ---------------------------------------------------------------- execution
    def exec_func(self, f, args, st, va=None, caller_va=None):
        """inline execution of function body; returns (retval, state)"""
        if len(self.callstack) > self.opts["maxdepth"]:
            raise Unsupported("inline depth at %s" % f.name)
        if self.callstack.count(f.name) > 0:
            raise Unsupported("recursion %s" % f.name)
        ir.analyse(f)
        self.callstack.append(f.name)
        saved_line = self.line
        fr = Frame(f, args, len(self.callstack), va)
        self.frames.append(fr)
        for (n, t, fl), a in zip(f.params, args):
            fr.env[n] = a
        rets = []
        run = self.run(fr, set(f.rpo), f.rpo[0], [(None, st)], None, rets)
        if run[0] or run[1]:
            raise Unsupported("edges leaving function")
        self.callstack.pop()
        self.frames.pop()
        self.line = saved_line
        if not rets:
            # never returns
            s = st.copy()
            s.pc = z3.BoolVal(False)
            rv = None
            if f.ret.k != "void":
                rv = self.fresh(f.ret, "noret")
            return rv, s
        out = self.merge([s for s, _ in rets])
        rv = None
        if f.ret.k != "void":
            rv = rets[-1][1]
            for s, v in rets[-2::-1]:
                rv = Ite(s.pc, v, rv)
            if not isinstance(rv, (Ptr, tuple)):
                rv = simp(rv)
        return rv, out

    def run(self, fr, region, start, ins, cur, rets):
        """execute the acyclic region; ins = [(pred, state)] into start.  Returns (backedges, exits):
        backedges = [(pred, state)] to cur.header, exits = [(pred, target, state)]"""
        f = fr.f
        inc = {start: list(ins)}
        back, exits = [], []

        def route(src, tgt, s):
            if is_false(s.pc) and not self.dry:
                return
            if cur is not None and tgt == cur.header:
                back.append((src, s))
            elif tgt in region:
                inc.setdefault(tgt, []).append((src, s))
            else:
                exits.append((src, tgt, s))

        for b in f.rpo:
            if b not in region or b not in inc:
                continue
            if b in f.loops and (cur is None or b != cur.header):
                outs = self.run_loop(fr, f.loops[b], inc[b], rets)
                for src, tgt, s in outs:
                    route(src, tgt, s)
                continue
            edges = inc[b]
            self.exec_block(fr, b, edges, route, rets, phis_done=(cur is not None and b == cur.header))
        return back, exits

    def exec_block(self, fr, b, edges, route, rets, phis_done=False):
        f = fr.f
        blk = f.blocks[b]
        sts = [s for _, s in edges]
        st = self.merge(sts)
        if not phis_done:
            newenv = {}
            for ins in blk.ins:
                if ins.op != "phi":
                    break
                v = None
                for pred, s in reversed(edges):
                    j = ins.x.index(pred)
                    x = self.val(fr, ins.ops[j])
                    v = x if v is None else Ite(s.pc, x, v)
                newenv[ins.dst] = v
            fr.env.update(newenv)
        for ins in blk.ins:
            if ins.op == "phi":
                continue
            self.line = ins.line if ins.line is not None else self.line
            self.curpc = st.pc
            t = ins.op
            if t == "br":
                if len(ins.x) == 1:
                    route(b, ins.x[0], st)
                else:
                    c = self.val(fr, ins.ops[0])
                    c = self.decide(st, simp(c))
                    if ins.x[0] == ins.x[1]:
                        route(b, ins.x[0], st)
                        return
                    s1, s2 = st.copy(), st
                    p1, p2 = self.cond(st.pc, c)
                    s1.pc = p1
                    s2.pc = p2
                    route(b, ins.x[0], s1)
                    route(b, ins.x[1], s2)
                return
            if t == "switch":
                v = self.val(fr, ins.ops[0])
                d, cases = ins.x
                rest = []
                groups = {}
                for cv, lab in cases:
                    groups.setdefault(lab, []).append(v == bv(cv, v.size()))
                    rest.append(v != bv(cv, v.size()))
                if d in groups:
                    groups[d].append(And(*rest))
                    dd = None
                else:
                    dd = d
                for lab, cs in groups.items():
                    s1 = st.copy()
                    s1.pc = self.cond(st.pc, simp(Or(*cs)))[0]
                    route(b, lab, s1)
                if dd is not None:
                    s1 = st.copy()
                    s1.pc = self.cond(st.pc, simp(And(*rest)))[0]
                    route(b, dd, s1)
                return
            if t == "ret":
                rets.append((st, self.val(fr, ins.ops[0]) if ins.ops else None))
                return
            if t == "unreachable":
                return
            st2 = self.exec_ins(fr, ins, st)
            if st2 is not None:
                st = st2

    def decide(self, st, c):
        """branch conditions that follow from the facts (option decide): keeps case-split units small"""
        if not self.opts.get("decide") or is_true(c) or is_false(c):
            return c
        s = z3.Solver()
        s.set("timeout", 300)
        for f in list(self.gfacts) + self.facts:
            s.add(f)
        s.add(st.pc)
        if s.check(c) == z3.unsat:
            return z3.BoolVal(False)
        if s.check(z3.Not(c)) == z3.unsat:
            return z3.BoolVal(True)
        return c

    def cond(self, pc, c):
        if is_true(c):
            return pc, z3.BoolVal(False)
        if is_false(c):
            return z3.BoolVal(False), pc
        b1 = And(pc, c)
        b2 = And(pc, Not(c))
        n1, n2 = z3.Bool(fresh_name("pc")), z3.Bool(fresh_name("pc"))
        self.facts.append(n1 == b1)
        self.facts.append(n2 == b2)
        self.pcs.append((n1, "cond", pc, n2))
        self.pcs.append((n2, "cond", pc, n1))
        return n1, n2

    def exec_ins(self, fr, ins, st):
        op = ins.op
        env = fr.env
        if op == "load":
            env[ins.dst] = self.load(st, self.val(fr, ins.ops[0]), ins.ty)
        elif op == "store":
            self.store(st, self.val(fr, ins.ops[1]), self.val(fr, ins.ops[0]), ins.ty)
        elif op == "gep":
            env[ins.dst] = self.gep(ins.x, ins.ops, fr)
        elif op == "bin":
            env[ins.dst] = self.binop(st, ins, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]))
        elif op == "icmp":
            env[ins.dst] = self.icmp(ins.x, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]))
        elif op == "fcmp":
            env[ins.dst] = z3.Bool(fresh_name("fcmp"))
        elif op == "cast":
            env[ins.dst] = self.cast(ins, self.val(fr, ins.ops[0]))
        elif op == "select":
            c, a, b = [self.val(fr, x) for x in ins.ops]
            env[ins.dst] = Ite(simp(c), a, b)
        elif op == "alloca":
            n = self.mod.size(ins.x)
            sz = bv(n)
            if ins.ops and ins.ops[0] is not None:
                sz = sz * self.as_index(fr, ins.ops[0])
            env[ins.dst] = Ptr(self.alloc(st, simp(sz), name="stk_" + (ins.dst or "")))
        elif op == "call":
            return self.call(fr, ins, st)
        elif op == "freeze":
            env[ins.dst] = self.val(fr, ins.ops[0])
        elif op == "fneg":
            env[ins.dst] = self.fresh(ins.ty)
        else:
            raise Unsupported("instruction %s" % op)

    def binop(self, st, ins, a, b):
        x = ins.x
        if x[0] == "f":
            return self.fresh(ins.ty)
        if z3.is_bool(a) or z3.is_bool(b):
            if x == "and":
                return simp(z3.And(a, b))
            if x == "or":
                return simp(z3.Or(a, b))
            if x in ("xor", "add", "sub"):
                return simp(z3.Xor(a, b))
            raise Unsupported("i1 %s" % x)
        w = a.size()
        if self.opts["nsw"] and "nsw" in ins.flags and not self.dry:
            if x == "add":
                self.oblige(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "no-signed-overflow", "ovf")
            elif x == "sub":
                self.oblige(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "no-signed-overflow", "ovf")
        if x in ("urem", "srem") and "rem" in self.hooks:
            r = self.hooks["rem"](self, st, x, a, b)
            if r is not None:
                return r
        if x == "mul" and "mul" in self.opts and not z3.is_bv_value(a) and not z3.is_bv_value(b):
            return self.opts["mul"](self, st, a, b)
        r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "udiv": lambda: z3.UDiv(a, b),
             "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b), "srem": lambda: z3.SRem(a, b),
             "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b,
             "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[x]()
        return simp(r)

    def icmp(self, pred, a, b):
        if isinstance(a, Ptr):
            if pred == "eq":
                return simp(peq(a, b))
            if pred == "ne":
                return simp(z3.Not(peq(a, b)))
            f, g = a.f, b.f
            r = {"ult": z3.ULT(f, g), "ule": z3.ULE(f, g), "ugt": z3.UGT(f, g), "uge": z3.UGE(f, g)}[pred]
            return simp(r)
        if z3.is_bool(a):
            if pred == "eq":
                return simp(a == b)
            if pred == "ne":
                return simp(z3.Xor(a, b))
            a, b = b2i(a, 1), b2i(b, 1)
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()
        return simp(r)

    def cast(self, ins, a):
        x = ins.x
        if x == "bitcast":
            return a
        if x in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return self.fresh(ins.ty)
        if x == "ptrtoint":
            if z3.is_int_value(a.o) and a.o.as_long() == 0:
                return a.f
            return simp(z3.If(a.o == 0, a.f, self.addr(a.o) + a.f))
        if x == "inttoptr":
            return Ptr(NULLO, simp(a))
        n = ins.ty.n
        if x == "trunc":
            if n == 1:
                return simp(z3.Extract(0, 0, a) == 1)
            return simp(z3.Extract(n - 1, 0, a))
        if z3.is_bool(a):
            if x == "zext":
                return simp(b2i(a, n))
            return simp(z3.If(a, bv(-1, n), bv(0, n)))
        if x == "zext":
            return simp(z3.ZeroExt(n - a.size(), a))
        if x == "sext":
            return simp(z3.SignExt(n - a.size(), a))
        raise Unsupported("cast " + x)

    # ---------------------------------------------------------------- calls
    @staticmethod
    def base(name):
        import re
        m = re.match(r"^(.*)\.\d+$", name)
        return m.group(1) if m else name

    def call(self, fr, ins, st):
        c = ins.x
        args = [self.val(fr, a) if a is not None else None for a in ins.ops]
        if c.k == "global":
            rv, st2 = self.call_named(c.v, args, st, ins, fr)
        else:
            fp = self.val(fr, c)
            rv, st2 = self.call_ptr(fp, args, st, ins, fr)
        if ins.dst is not None:
            fr.env[ins.dst] = rv
        return st2

    def call_ptr(self, fp, args, st, ins, fr):
        o = simp(fp.o)
        if z3.is_int_value(o) and o.as_long() in self.obj2fn:
            return self.call_named(self.obj2fn[o.as_long()], args, st, ins, fr)
        if self.indirect is not None:
            r = self.indirect(self, fp, args, st, ins)
            if r is not None:
                return r
        leaves = fn_leaves(o)
        if leaves is not None and all(x in self.obj2fn for x in leaves):
            outs = []
            for x in leaves:
                s = st.copy()
                s.pc = self.cond(st.pc, simp(o == x))[0]
                rv, s2 = self.call_named(self.obj2fn[x], args, s, ins, fr)
                outs.append((rv, s2))
            m = self.merge([s for _, s in outs])
            rv = outs[-1][0]
            for r, s in outs[-2::-1]:
                rv = Ite(s.pc, r, rv) if r is not None else None
            return rv, m
        raise Unsupported("indirect call at %s" % (self.curline(),))

    def call_named(self, name, args, st, ins, fr):
        b = self.base(name)
        for n in (name, b):
            if n in self.contracts:
                k = self.contracts[n]
                self.used_contracts.add(n)
                r = k(self, st, args, ins)
                if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State):
                    return r
                return r, st
        if b.startswith("llvm."):
            return self.intrinsic(b, args, st, ins)
        if name in self.mod.funcs:
            f = self.mod.funcs[name]
            nfix = len(f.params)
            va = args[nfix:] if f.vararg else None
            # coerce
            self.inlined.add(name)
            return self.exec_func(f, args[:nfix], st, va=va)
        self.unknown.add(name)
        return self.havoc_call(name, args, st, ins)

    def havoc_call(self, name, args, st, ins):
        if not self.dry:
            self.oblige(st, z3.BoolVal(False), "unsupported-unknown-function:%s" % name, "unsupported")
        rv = None
        if ins.ty.k != "void":
            rv = self.fresh(ins.ty, "r_" + name)
        return rv, st

    def intrinsic(self, b, args, st, ins):
        if b.startswith("llvm.memcpy") or b.startswith("llvm.memmove"):
            self.contracts["memcpy"](self, st, args, ins)
            return None, st
        if b.startswith("llvm.memset"):
            self.contracts["memset"](self, st, [args[0], args[1], args[2]], ins)
            return None, st
        if b.startswith("llvm.threadlocal"):
            return args[0], st
        if b.startswith("llvm.stacksave"):
            return self.fresh(ir.PTR, "stacksave"), st
        if b.startswith("llvm.stackrestore") or b.startswith("llvm.va_") or b.startswith("llvm.assume"):
            return None, st
        if b.startswith("llvm.expect"):
            return args[0], st
        if b.startswith("llvm.objectsize"):
            return bv(-1), st
        raise Unsupported("intrinsic " + b)

    # ---------------------------------------------------------------- loops
    def run_loop(self, fr, L, ins, rets):
        f = fr.f
        blk = f.blocks[L.header]
        phis = [i for i in blk.ins if i.op == "phi"]
        st_in = self.merge([s for _, s in ins])
        self.curpc = st_in.pc
        entry = {}
        for ph in phis:
            v = None
            for pred, s in reversed(ins):
                x = self.val(fr, ph.ops[ph.x.index(pred)])
                v = x if v is None else Ite(s.pc, x, v)
            entry[ph.dst] = v
        lname = "%s:%s" % (f.name, L.header)
        unroll = self.opts.get("unroll")
        if unroll is not None:
            return self.run_loop_unrolled(fr, L, st_in, entry, phis, rets, unroll)
        if self.base(f.name) in self.opts.get("exact_loops", ()):
            self.exact_unrolls += 1
            return self.run_loop_unrolled(fr, L, st_in, entry, phis, rets, 64, exact=True)
        n = self.trip_count(fr, L, entry, phis, self.opts.get("full_unroll", 16))
        if n is not None:
            self.exact_unrolls += 1
            return self.run_loop_unrolled(fr, L, st_in, entry, phis, rets, n + 1, exact=True)

        def fresh_phis(tag):
            head = {}
            for ph in phis:
                v = self.fresh(ph.ty, "%s.%s" % (tag, ph.dst))
                if isinstance(v, Ptr):
                    v.tag = entry[ph.dst].tag
                head[ph.dst] = v
            return head

        # ---- discovery pass: which classes / objects are written
        save = (len(self.facts), len(self.obls), len(self.cands), self.written, self.line, len(self.qfacts))
        self.written = {}
        if not self.dry:
            self.zero_real = len(self.zeroed)
        nz = len(self.zeroed)
        self.dry += 1
        ncnt0 = _cnt[0]
        d_state = st_in.copy()
        d_head = fresh_phis("dry")
        env_save = dict(fr.env)
        fr.env.update(d_head)
        drets = []
        dback, dexits = self.run(fr, L.body, L.header, [(None, d_state)], L, drets)
        dry_env = fr.env
        fr.env = env_save
        self.dry -= 1
        del self.zeroed[nz:]
        if not self.dry:
            self.zero_real = None
        written = self.written
        ghosts = set()
        for s in [s for _, s in dback] + [s for _, _, s in dexits] + [s for s, _ in drets]:
            for k, g in s.ghost.items():
                g0 = st_in.ghost.get(k)
                if not _same(g, g0):
                    ghosts.add(k)
            for c, mm in s.mem.items():
                if c in written:
                    continue
                m0 = st_in.mem.get(c, self.mem0.get(c))
                if m0 is not None and not m0.eq(mm):
                    written.setdefault(c, [])
        del self.facts[save[0]:]
        del self.qfacts[save[5]:]
        self.written = save[3]
        self.line = save[4]
        allocs = written.pop("$alloc", [])
        info = LoopInfo(self, fr, L)
        self.curpc = st_in.pc
        info.name = lname
        info.written = written
        info.ghosts = ghosts
        # ---- havoc
        st = st_in.copy()
        head = fresh_phis("h")
        if allocs or True:
            if allocs:
                st.next = z3.Int(fresh_name("next"))
                self.fact(z3.BoolVal(True), st.next >= st_in.next)
        frames = {}
        for c, objs in written.items():
            m_in = self.getmem(st_in, c)
            if c.startswith("$"):
                st.mem[c] = z3.Const(fresh_name("L" + c), m_in.sort())
                continue
            s = self.classes[c]
            inner = z3.ArraySort(BV64, s)
            stable, freshw, other = [], False, False
            for o in objs:
                if o is None:
                    other = True
                    break
                cs = set(consts(o))
                if any(alloc_sym(o, a) for a in allocs):
                    freshw = True
                elif all(_num(x) <= ncnt0 for x in cs):
                    if not any(o.eq(x) for x in stable):
                        stable.append(o)
                else:
                    other = True
            if not objs:
                other = True
            objs = [o for o in objs if o is not None] if None not in objs else None
            if other or objs is None or c in self.opts.get("noframe", ()):
                st.mem[c] = z3.Array(fresh_name("L_" + c), INT, inner)
                frames[c] = None
            elif not freshw and len(stable) <= 3:
                m = m_in
                for o in stable:
                    m = z3.Store(m, o, z3.Const(fresh_name("L_" + c), inner))
                st.mem[c] = m
                frames[c] = (stable, None)
            else:
                F = z3.Array(fresh_name("L_" + c), INT, inner)
                o = z3.Int("o!q")
                self.facts.append(z3.ForAll([o], z3.Implies(z3.And(o < st_in.next, *[o != x for x in stable]),
                                                             z3.Select(F, o) == z3.Select(m_in, o)),
                                            patterns=[z3.Select(F, o)]))
                st.mem[c] = F
                frames[c] = (stable, st_in.next)
        for k in ghosts:
            g = st_in.ghost.get(k)
            st.ghost[k] = _fresh_like(g, "g_" + str(k))
        pcl = z3.Bool(fresh_name("pc_loop"))
        # the loop head is reached: pc of the header implies the loop was entered
        self.facts.append(z3.Implies(pcl, st_in.pc))
        self.pcs.append((pcl, "loop", st_in.pc, None))
        st.pc = pcl
        for ph in phis:
            v = head[ph.dst]
            if isinstance(v, Ptr):
                self.fact(z3.BoolVal(True), z3.And(v.o >= 0, v.o < st.next))
        # ---- templates
        info.entry = Snap(st_in, entry)
        info.head = Snap(st, head)
        info.phis = phis
        info.allocs = allocs
        info.bounds = self.loop_bounds(fr, L, head, dry_env, ncnt0)
        cands = []
        hints = self.opts.get("hints")
        relaxed = set(relax(h) for h in hints) if hints is not None and self.opts.get("relaxed") else None
        if not self.dry:
            info.canon = {ph.dst: "phi%d" % n for n, ph in enumerate(phis)}
            lidx = sum(1 for x in self.loopinfos if x.fr.f is f)
            lkey = "%s/%d" % (self.base(f.name), lidx)
            for tmpl in self.templates:
                for nm, fn in tmpl(self, info):
                    nm = "%s:%s" % (lkey, nm)
                    if hints is not None and nm not in hints and not (relaxed and relax(nm) in relaxed):
                        continue
                    cands.append((nm, fn))
        live = []
        for nm, fn in cands:
            try:
                he = fn(info.head)
                ee = fn(info.entry)
            except (Unsupported, z3.Z3Exception, KeyError, AttributeError, IndexError) as e:
                if self.opts.get("debug"):
                    print("template %s failed: %r" % (nm, e))
                continue
            if he is None or ee is None:
                continue
            act = z3.Bool(fresh_name("act"))
            cd = Cand(nm, act, lname)
            k = self.candnames.get(nm, 0)
            self.candnames[nm] = k + 1
            cd.hint = nm
            if k:
                cd.name = "%s~%d" % (nm, k)
            self.cands.append(cd)
            self.oblige(st_in, ee, "inv-entry:%s" % cd.name, "inv", cd)
            live.append((cd, fn, he))
        for cd, fn, he in live:
            self.assume(st, he, cd.act)
        for ph in phis:
            v = head[ph.dst]
            if not isinstance(v, Ptr) and z3.is_bv(v) and v.size() in (32, 64):
                self.trigger(v, "phi")
        # ---- body
        fr.env.update(head)
        self.loopinfos.append(info)
        prev_written = self.written
        self.written = {}
        self.frame_stack.append((lname, written, frames))
        back, exits = self.run(fr, L.body, L.header, [(None, st)], L, rets)
        self.frame_stack.pop()
        w2 = self.written
        self.written = prev_written
        if prev_written is not None:
            for k, v in w2.items():
                prev_written.setdefault(k, []).extend(v)
            for k, v in written.items():
                prev_written.setdefault(k, []).extend(v)
            prev_written.setdefault("$alloc", []).extend(allocs)
        # ---- preservation
        for src, s in back:
            phi = {}
            for ph in phis:
                phi[ph.dst] = self.val(fr, ph.ops[ph.x.index(src)])
            sn = Snap(s, phi)
            for k in list(s.mem):
                pass
            for cd, fn, he in live:
                self.oblige(s, fn(sn), "inv-preserved:%s" % cd.name, "inv", cd)
        return exits

    def run_loop_unrolled(self, fr, L, st_in, entry, phis, rets, unroll, exact=False):
        outs = []
        st = st_in
        phi = dict(entry)
        n = 0
        cur = [(None, st)]
        while True:
            fr.env.update(phi)
            back, exits = self.run(fr, L.body, L.header, [(None, st)], L, rets)
            env_snapshot = dict(fr.env)
            outs.extend([(src, tgt, s, env_snapshot) for src, tgt, s in exits])
            n += 1
            back = [(a, s) for a, s in back if not is_false(simp(s.pc))]
            if not back:
                break
            if n > unroll:
                if exact:
                    raise Unsupported("complete unrolling did not terminate")
                # assume no further iteration (bounded): recorded by the driver as a bounded check
                self.bounded_cut = True
                break
            phi2 = {}
            for ph in phis:
                v = None
                for src, s in reversed(back):
                    x = self.val(fr, ph.ops[ph.x.index(src)])
                    v = x if v is None else Ite(s.pc, x, v)
                phi2[ph.dst] = v
            phi = phi2
            st = self.merge([s for _, s in back])
        # SSA values defined in the loop and used after it: merge by exit
        res = []
        if outs:
            names = set()
            for _, _, _, e in outs:
                names |= set(e)
            merged = {}
            for k in names:
                vals = [(s.pc, e[k]) for _, _, s, e in outs if k in e]
                v = vals[-1][1]
                for pc, x in vals[-2::-1]:
                    if x is not v:
                        v = Ite(pc, x, v)
                merged[k] = v
            fr.env.update(merged)
            # merge exits per (src,tgt)
            groups = {}
            for src, tgt, s, e in outs:
                groups.setdefault((src, tgt), []).append(s)
            for (src, tgt), ss in groups.items():
                res.append((src, tgt, self.merge(ss)))
        return res

    def trip_count(self, fr, L, entry, phis, limit):
        """constant iteration count of a counting loop, or None (used only to choose complete unrolling, which is exact)"""
        f = fr.f
        blk = f.blocks[L.header]
        t = blk.ins[-1]
        if t.op != "br" or len(t.x) != 2 or t.ops[0].k != "local":
            return None
        cmp = next((i for i in blk.ins if i.dst == t.ops[0].v), None)
        if cmp is None or cmp.op != "icmp":
            return None
        a, b = cmp.ops
        if b.k != "int" or a.k != "local":
            return None
        ph = next((p for p in phis if p.dst == a.v), None)
        if ph is None or ph.ty.k != "i":
            return None
        e = simp(entry[ph.dst])
        if not z3.is_bv_value(e):
            return None
        step = None
        for op, src in zip(ph.ops, ph.x):
            if src not in L.body:
                continue
            if op.k != "local":
                return None
            d = next((i for bb in L.body for i in f.blocks[bb].ins if i.dst == op.v), None)
            if d is None or d.op != "bin" or d.x not in ("add", "sub") or d.ops[0].k != "local" or d.ops[0].v != ph.dst or d.ops[1].k != "int":
                return None
            s = d.ops[1].v if d.x == "add" else -d.ops[1].v
            if step is not None and s != step:
                return None
            step = s
        if not step:
            return None
        inside = t.x[0] in L.body
        v, n = e, 0
        while n <= limit:
            c = simp(self.icmp(cmp.x, v, bv(b.v, e.size())))
            if is_true(c) != inside:
                return n
            v = simp(v + bv(step, e.size()))
            n += 1
        return None

    def loop_bounds(self, fr, L, head, dry_env=None, ncnt0=0):
        """loop-invariant integer operands of comparisons in the loop"""
        out = []
        f = fr.f
        defs_in = set()
        for b in L.body:
            for i in f.blocks[b].ins:
                if i.dst:
                    defs_in.add(i.dst)
        for b in L.body:
            for i in f.blocks[b].ins:
                if i.op == "icmp":
                    for o in i.ops:
                        if o.k == "int" and o.ty.n in (32, 64):
                            out.append(bv(o.v, o.ty.n))
                        elif o.k == "local" and o.v not in defs_in and o.v in fr.env:
                            v = fr.env[o.v]
                            if not isinstance(v, Ptr) and z3.is_bv(v) and v.size() in (32, 64):
                                out.append(v)
                        elif o.k == "local" and dry_env is not None and o.v in dry_env and o.v not in head:
                            v = dry_env[o.v]
                            if not isinstance(v, Ptr) and z3.is_bv(v) and v.size() in (32, 64) and all(_num(x) <= ncnt0 for x in consts(v)):
                                out.append(simp(v))
        res = []
        for v in out:
            if not any(v.eq(x) for x in res):
                res.append(v)
        return res


def relax(nm):
    """invariant name without loop, variable and bound numbers"""
    nm = nm.split(":", 1)[1]
    nm = re.sub(r"phi\d+", "phi", nm)
    return re.sub(r"\.(b|o)\d+$", r".\1", nm)


def fn_leaves(o):
    """set of int values an ite-tree may take"""
    if z3.is_int_value(o):
        return [o.as_long()]
    if z3.is_app_of(o, z3.Z3_OP_ITE):
        a, b = fn_leaves(o.arg(1)), fn_leaves(o.arg(2))
        if a is None or b is None:
            return None
        return list(dict.fromkeys(a + b))
    return None


def simp_store(m, o, inner):
    # Store(Store(m,o,x),o,y) -> Store(m,o,y)
    while z3.is_app_of(m, z3.Z3_OP_STORE) and m.arg(1).eq(o):
        m = m.arg(0)
    return z3.Store(m, o, inner)


def _same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Ptr):
        return isinstance(b, Ptr) and a.o.eq(b.o) and a.f.eq(b.f)
    if isinstance(a, tuple):
        return all(_same(x, y) for x, y in zip(a, b))
    return a.eq(b)


def _fresh_like(g, nm):
    if isinstance(g, Ptr):
        n = fresh_name(nm)
        return Ptr(z3.Int(n + ".o"), z3.BitVec(n + ".f", 64), g.tag)
    if isinstance(g, tuple):
        return tuple(_fresh_like(x, nm) for x in g)
    return z3.Const(fresh_name(nm), g.sort())


_cc = {}


def consts(e):
    """names of uninterpreted constants in e"""
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                st.extend(x.children())
    return out


def _num(name):
    if "!" in name:
        t = name.rsplit("!", 1)[1].split(".")[0]
        try:
            return int(t)
        except ValueError:
            return 0
    return 0


def alloc_sym(o, a):
    return o.eq(a)
