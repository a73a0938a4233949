"""C01: bit strings"""
import z3
from ..theory import *
from ..pari import *
from .. import libc
from ..libc import row, setrow, literal, hexdigit
from ..unit import Unit, obj, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, Ite

B8 = z3.BitVecSort(8)
LIM = bv(1 << 40)
OPTS = dict(memsafe=True, auto_trig=True, derived=[lambda k: z3.LShR(k, bv(3))])


# ghost: all operands have their unused bits zero; every operation then has to keep it so.  The other postconditions
# are proved without this assumption, so bits beyond the stated length cannot influence a result.
CLEAN = z3.Bool("operands_clean")


# ---------------------------------------------------------------- view of a bits_t
def bitof(byte, k):
    return z3.Extract(0, 0, z3.LShR(byte, z3.ZeroExt(5, ~z3.Extract(2, 0, k)))) == bv(1, 1)


def rbit(r, f, k):
    """bit k of a row starting at offset f"""
    a = z3.LShR(k, bv(3))
    return bitof(z3.Select(r, simp(f + a)), k)


def bytelen(n):
    return z3.LShR(n + 7, bv(3))


class BV:
    """snapshot of a bits_t in a state"""

    def __init__(self, cx, st, b):
        self.cx, self.b = cx, b
        self.buf = cx.getf(st, b, "bits_t", "bits")
        self.len = cx.getf(st, b, "bits_t", "bitlen", I64)
        self.alloc = cx.getf(st, b, "bits_t", "allocated", I64)
        self.sign = cx.getf(st, b, "bits_t", "sign", I8) != 0
        self.row = row(cx, st, self.buf.o)

    def bit(self, k):
        return rbit(self.row, self.buf.f, k)

    def byte(self, k):
        return z3.Select(self.row, self.buf.f + k)


def mkbits(cx, st, name, clean=None):
    b = obj(cx, st, name, cx.mod.size(ir.Ty("named", name="struct.bits_t")))
    n, al, sg = z3.BitVec(name + ".bitlen", 64), z3.BitVec(name + ".allocated", 64), z3.BitVec(name + ".sign", 8)
    data = obj(cx, st, name + ".data")
    isn = z3.Bool(name + ".nobuf")
    buf = Ptr(z3.If(isn, z3.IntVal(0), data.o))
    cx.setf(st, b, "bits_t", "bits", buf)
    cx.setf(st, b, "bits_t", "bitlen", n, I64)
    cx.setf(st, b, "bits_t", "allocated", al, I64)
    cx.setf(st, b, "bits_t", "sign", sg, I8)
    cx.fact(TRUE, And(z3.ULE(n, LIM), z3.ULE(al, LIM), z3.ULE(bytelen(n), al), Implies(isn, al == 0), cx.size(data.o) == al,
                      Or(sg == 0, sg == 1)))
    v = BV(cx, st, b)
    if clean is not False:
        c = CLEAN if clean is None else TRUE
        cx.assume(st, Forall(BV64, lambda k: Implies(And(c, z3.UGE(k, n), z3.ULT(z3.LShR(k, bv(3)), al)), Not(v.bit(k))), "idx"))
    cx.u[name] = b
    cx.u[name + ".v"] = v
    return b


def wf(cx, st, v, pfx="result"):
    yield pfx + "-storage-covers-length", And(z3.UGE(v.alloc, bytelen(v.len)), Or(v.alloc == 0, And(v.buf.o >= 1, v.buf.f == 0, z3.UGE(cx.size(v.buf.o), v.alloc))))


def is_clean(v, pfx="result", given=None):
    given = CLEAN if given is None else given
    yield pfx + "-unused-bits-zero", Forall(BV64, lambda k: Implies(And(given, z3.UGE(k, v.len), z3.ULT(z3.LShR(k, bv(3)), v.alloc)), Not(v.bit(k))), "idx")


def equals(cx, st, p, length, sign, spec, pfx="result", given=TRUE):
    v = BV(cx, st, p)
    yield pfx + "-length", v.len == length
    if sign is not None:
        yield pfx + "-sign", v.sign == sign
    yield from wf(cx, st, v, pfx)
    yield pfx + "-bits", Forall(BV64, lambda k: Implies(And(given, z3.ULT(k, length)), v.bit(k) == spec(k)), "idx")


def fresh_result(cx, p):
    yield "result-is-a-new-object", p.o >= cx.st0.next


def unchanged(cx, st0, st, name):
    """the operand object and its storage are as before"""
    v0, v1 = cx.u[name + ".v"], BV(cx, st, cx.u[name])
    yield name + "-unchanged", And(v1.len == v0.len, v1.alloc == v0.alloc, v1.sign == v0.sign, peq(v0.buf, v1.buf))
    yield name + "-bytes-unchanged", Forall(BV64, lambda k: Implies(z3.ULT(k, v0.alloc), v1.byte(k) == v0.byte(k)), "idx")


def others_unchanged(cx, st0, st, names):
    """no object that existed before, other than those named, is written"""
    o = z3.Int("other!obj")
    excl = []
    for n in names:
        excl += [cx.u[n].o, cx.u[n + ".v"].buf.o]
    cond = And(o >= 1000000, o < st0.next, *[o != x for x in excl])
    goals = []
    for c in list(cx.classes):
        if c[0] in "$#":
            continue
        m0, m1 = cx.getmem(st0, c), cx.getmem(st, c)
        if not m0.eq(m1):
            k = z3.BitVec("other!off", 64)
            goals.append(Implies(cond, z3.Select(z3.Select(m1, o), k) == z3.Select(z3.Select(m0, o), k)))
    yield "nothing-else-written", And(*goals)


# ---------------------------------------------------------------- loop templates
def bit_loops(cx, info):
    specs = cx.u.get("specs", [])
    bases = cx.u.get("bases", [])
    objs = []
    for o in info.written.get("i8", []):
        if o is not None and not any(o.eq(x) for x in objs):
            objs.append(o)
    en = info.entry
    for p in info.phis:
        if p.ty.k != "i" or p.ty.n not in (32, 64):
            continue
        d = p.dst

        def x(s, d=d):
            v = s.phi[d]
            return v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
        e = x(en)
        ranges = [("lt", lambda k, i: z3.ULT(k, i)), ("ge", lambda k, i: z3.UGE(k, i)),
                  ("ltE", lambda k, i, e=e: z3.ULT(k, e)), ("btwE", lambda k, i, e=e: And(z3.UGE(k, e), z3.ULT(k, i)))]
        ranges.append(("lt8", lambda k, i: z3.ULT(z3.LShR(k, bv(3)), i)))
        ranges.append(("ge8", lambda k, i: z3.UGE(z3.LShR(k, bv(3)), i)))
        for n, c in enumerate(bases):
            ranges.append(("lt+%d" % n, lambda k, i, c=c: z3.ULT(k, c + i)))
            ranges.append(("ge+%d" % n, lambda k, i, c=c: z3.UGE(k, c + i)))
            ranges.append(("ge-%d" % n, lambda k, i, c=c: And(z3.UGE(k, c - i), z3.ULE(i, c))))
            ranges.append(("top-%d" % n, lambda k, i, c=c: And(z3.UGE(k, c - i), z3.ULT(k, c), z3.ULE(i, c))))
            ranges.append(("lt-%d" % n, lambda k, i, c=c: And(z3.ULT(k, c - i), z3.ULE(i, c))))
            ranges.append(("ends-%d" % n, lambda k, i, c=c: Or(z3.ULT(k, i), And(z3.UGE(k, c - i), z3.ULT(k, c)))))
            ranges.append(("cst-%d" % n, lambda k, i, c=c: z3.ULT(k, c)))
            ranges.append(("from-%d" % n, lambda k, i, c=c: z3.UGE(k, c)))
            ranges.append(("btw-%d" % n, lambda k, i, c=c: And(z3.UGE(k, c), z3.ULT(k, i))))
            ranges.append(("mid-%d" % n, lambda k, i, c=c: Or(And(z3.UGE(k, i), z3.ULT(k, c - i)), z3.UGE(k, c))))
        for oi, o in enumerate(objs):
            f0 = bv(0)

            def rw(s, o=o):
                return z3.Select(cx.getmem(s.st, "i8"), o)
            ent = rw(en)
            for rn, R in ranges:
                yield "%s.all-bits-%s.same.o%d" % (info.canon[d], rn, oi), (lambda s, R=R, rw=rw, x=x, ent=ent: Forall(
                    BV64, lambda k: Implies(R(k, x(s)), rbit(rw(s), f0, k) == rbit(ent, f0, k)), "idx"))
                yield "%s.all-bits-%s.zero.o%d" % (info.canon[d], rn, oi), (lambda s, R=R, rw=rw, x=x, o=o: Forall(
                    BV64, lambda k: Implies(And(R(k, x(s)), z3.ULT(z3.LShR(k, bv(3)), cx.size(o))), Not(rbit(rw(s), f0, k))), "idx"))
                for sn, sp in specs:
                    yield "%s.all-bits-%s.%s.o%d" % (info.canon[d], rn, sn, oi), (lambda s, R=R, rw=rw, x=x, sp=sp: Forall(
                        BV64, lambda k: Implies(R(k, x(s)), rbit(rw(s), f0, k) == sp(k)), "idx"))
            for n, c in enumerate(bases):
                for sn, sp in cx.u.get("revspecs", []):
                    # counted from the least significant end
                    yield "%s.all-rev-lt%d.%s.o%d" % (info.canon[d], n, sn, oi), (lambda s, rw=rw, x=x, sp=sp, c=c: Forall(
                        BV64, lambda j: Implies(And(z3.ULT(j, x(s)), z3.ULT(j, c)), rbit(rw(s), f0, c - 1 - j) == sp(j)), "rev"))
                    yield "%s.all-rev-ge%d.zero.o%d" % (info.canon[d], n, oi), (lambda s, rw=rw, x=x, c=c: Forall(
                        BV64, lambda j: Implies(And(z3.UGE(j, x(s)), z3.ULT(j, c)), Not(rbit(rw(s), f0, c - 1 - j))), "rev"))
            for rn, R in ranges[:4]:
                yield "%s.all-bytes-%s.same.o%d" % (info.canon[d], rn, oi), (lambda s, R=R, rw=rw, x=x, ent=ent: Forall(
                    BV64, lambda k: Implies(R(k, x(s)), z3.Select(rw(s), k) == z3.Select(ent, k)), "idx"))
                yield "%s.all-bytes-%s.zero.o%d" % (info.canon[d], rn, oi), (lambda s, R=R, rw=rw, x=x, o=o: Forall(
                    BV64, lambda k: Implies(And(R(k, x(s)), z3.ULT(k, cx.size(o))), z3.Select(rw(s), k) == 0), "idx"))
                for sn, sp in cx.u.get("bytespecs", []):
                    yield "%s.all-bytes-%s.%s.o%d" % (info.canon[d], rn, sn, oi), (lambda s, R=R, rw=rw, x=x, sp=sp: Forall(
                        BV64, lambda k: Implies(R(k, x(s)), z3.Select(rw(s), k) == sp(k)), "idx"))


T = [bit_loops]


def U(func, pre, post, **kw):
    kw.setdefault("templates", T)
    kw.setdefault("opts", OPTS)
    return Unit(func, "C01", pre, post, **kw)


UNITS = []


# ---------------------------------------------------------------- creation
def pre_len(cx, st):
    n = z3.BitVec("bit_len", 64)
    cx.fact(TRUE, z3.ULE(n, LIM))
    cx.u["n"] = n
    return [n]


def post_new(cx, st0, st, args, rv):
    yield from fresh_result(cx, rv)
    yield from equals(cx, st, rv, cx.u["n"], z3.BoolVal(False), lambda k: z3.BoolVal(False))
    yield from is_clean(BV(cx, st, rv), given=TRUE)


UNITS.append(U("bits_new", pre_len, post_new))


def pre_one(clean=None, extra=None, base_len=True):
    def p(cx, st):
        b = mkbits(cx, st, "bits", clean)
        v = cx.u["bits.v"]
        cx.u["bases"] = [v.len]
        cx.u["specs"] = [("orig", v.bit)]
        cx.u["bytespecs"] = [("orig", v.byte)]
        a = [b]
        if extra == "amount":
            am = z3.BitVec("amount", 64)
            cx.u["amount"] = am
            a.append(am)
        return a
    return p


def post_copy(cx, st0, st, args, rv):
    v = cx.u["bits.v"]
    yield from fresh_result(cx, rv)
    yield from equals(cx, st, rv, v.len, v.sign, v.bit)
    yield from unchanged(cx, st0, st, "bits")
    yield from others_unchanged(cx, st0, st, [])
    yield from is_clean(BV(cx, st, rv))
    yield "fresh-storage", Or(v.len == 0, BV(cx, st, rv).buf.o >= cx.st0.next)


UNITS.append(U("bits_copy", pre_one(), post_copy))


def pre_cpy(cx, st):
    return [mkbits(cx, st, "dest"), mkbits(cx, st, "src")]


def post_cpy(cx, st0, st, args, rv):
    """a non-empty source is copied completely; an empty source leaves the destination as it is (the test-suite fixes this)"""
    v, d = cx.u["src.v"], cx.u["dest.v"]
    e = v.len == 0
    yield from equals(cx, st, cx.u["dest"], z3.If(e, d.len, v.len), z3.If(e, d.sign, v.sign),
                      lambda k: z3.If(e, d.bit(k), v.bit(k)), "dest")
    yield from unchanged(cx, st0, st, "src")
    yield from others_unchanged(cx, st0, st, ["dest"])
    yield from is_clean(BV(cx, st, cx.u["dest"]), "dest")


UNITS.append(U("bits_cpy", pre_cpy, post_cpy))


# ---------------------------------------------------------------- random
rnd_f = F("rnd", INT, BV64)


def random_bits(cx, st, a, ins):
    "the next value of the generator, k bits"
    i = st.ghost.get("rnd")
    r = rnd_f(i)
    k = a[0]
    out = r & ((bv(1) << k) - 1)
    st.ghost["rnd"] = simp(i + 1)
    return z3.Extract(ins.ty.n - 1, 0, out) if ins.ty.n < 64 else out


def pre_rand(cx, st):
    i0 = z3.Int("rnd0")
    st.ghost["rnd"] = i0
    cx.u["rnd0"] = i0
    a = pre_len(cx, st)
    return a


def post_rand(cx, st0, st, args, rv):
    n = cx.u["n"]
    v = BV(cx, st, rv)
    yield from fresh_result(cx, rv)
    yield "result-length", And(v.len == n, Not(v.sign))
    yield from wf(cx, st, v)
    yield from is_clean(v, given=TRUE)
    ones = cx.u["ones"]
    # every bit is taken from the generator: with an all-ones generator every bit is one
    yield "every-bit-comes-from-the-generator", Forall(BV64, lambda k: Implies(And(ones, z3.ULT(k, n)), v.bit(k)), "idx")


def random_bits_ones(cx, st, a, ins):
    "k random bits (all ones under the ghost assumption 'ones')"
    k = a[0]
    r = z3.BitVec(fresh_name("random"), 64)
    m = (bv(1) << k) - 1
    cx.fact(st.pc, z3.ULE(r, m))
    cx.fact(st.pc, Implies(cx.u["ones"], r == m))
    if not cx.dry:
        cx.oblige(st, And(k >= 0, z3.ULE(k, bv(62))), "random_bits-argument-in-range", "assert")
    return r


def pre_rand2(cx, st):
    cx.u["ones"] = z3.Bool("ones")
    n = pre_len(cx, st)
    cx.u["specs"] = [("ones", lambda k: TRUE)]
    cx.u["bytespecs"] = [("ones", lambda k: z3.If(cx.u["ones"], bv(255, 8), bv(0, 8)))]
    return n


def rand_tmpl(cx, info):
    for o in info.written.get("i8", []):
        if o is None:
            continue
        for p in info.phis:
            if p.ty.k == "i" and p.ty.n == 64:
                d = p.dst
                n = cx.u["n"]

                def f(s, d=d, o=o):
                    r = z3.Select(cx.getmem(s.st, "i8"), o)
                    return Forall(BV64, lambda k: And(
                        Implies(And(cx.u["ones"], z3.ULT(k, n), z3.ULT(z3.LShR(k, bv(3)), s.phi[d])), rbit(r, bv(0), k)),
                        Implies(And(Or(z3.UGE(k, n), z3.UGE(z3.LShR(k, bv(3)), s.phi[d])), z3.ULT(z3.LShR(k, bv(3)), cx.size(o))), Not(rbit(r, bv(0), k)))), "idx")
                yield "%s.all-random" % info.canon[d], f


UNITS.append(U("bits_new_rand", pre_rand2, post_rand, templates=[rand_tmpl], contracts={"random_bits": random_bits_ones}))


# ---------------------------------------------------------------- in-place operations and their copying variants
def havoc_bits(cx, st, b, v, length, sign, spec, given=TRUE, clean=None):
    """effect of an operation that rewrites *b: new contents `spec`, possibly in a new buffer; v is the snapshot before"""
    nb = Ptr(cx.alloc(st, name="newbuf"))
    moved = z3.Bool(fresh_name("moved"))
    buf = Ptr(z3.If(moved, nb.o, v.buf.o))
    al = z3.BitVec(fresh_name("alloc"), 64)
    cx.setf(st, b, "bits_t", "bits", buf)
    cx.setf(st, b, "bits_t", "bitlen", length, I64)
    cx.setf(st, b, "bits_t", "allocated", al, I64)
    cx.setf(st, b, "bits_t", "sign", z3.If(sign, bv(1, 8), bv(0, 8)), I8)
    r = z3.Const(fresh_name("bitrow"), z3.ArraySort(BV64, B8))
    setrow(cx, st, buf.o, r)
    w = BV(cx, st, b)
    cx.fact(st.pc, And(z3.UGE(al, bytelen(length)), z3.ULE(al, LIM), z3.UGE(cx.size(buf.o), al), Or(al == 0, buf.o >= 1)))
    cx.assume(st, Forall(BV64, lambda k: Implies(And(given, z3.ULT(k, length)), w.bit(k) == spec(k)), "idx"))
    c = CLEAN if clean is None else clean
    cx.assume(st, Forall(BV64, lambda k: Implies(And(c, z3.UGE(k, length), z3.ULT(z3.LShR(k, bv(3)), al)), Not(w.bit(k))), "idx"))
    return w


def new_bits(cx, st, length, sign, spec, given=TRUE, clean=None):
    b = Ptr(cx.alloc(st, bv(cx.mod.size(ir.Ty("named", name="struct.bits_t"))), name="newbits"))
    nb = Ptr(cx.alloc(st, name="newbuf"))
    isn = z3.Bool(fresh_name("nobuf"))
    buf = Ptr(z3.If(isn, z3.IntVal(0), nb.o))
    al = z3.BitVec(fresh_name("alloc"), 64)
    cx.setf(st, b, "bits_t", "bits", buf)
    cx.setf(st, b, "bits_t", "bitlen", length, I64)
    cx.setf(st, b, "bits_t", "allocated", al, I64)
    cx.setf(st, b, "bits_t", "sign", z3.If(sign, bv(1, 8), bv(0, 8)), I8)
    r = z3.Const(fresh_name("bitrow"), z3.ArraySort(BV64, B8))
    setrow(cx, st, nb.o, r)
    w = BV(cx, st, b)
    cx.fact(st.pc, And(z3.UGE(al, bytelen(length)), z3.ULE(al, LIM), cx.size(nb.o) == al, Implies(isn, al == 0)))
    cx.assume(st, Forall(BV64, lambda k: Implies(And(given, z3.ULT(k, length)), w.bit(k) == spec(k)), "idx"))
    c = CLEAN if clean is None else clean
    cx.assume(st, Forall(BV64, lambda k: Implies(And(c, z3.UGE(k, length), z3.ULT(z3.LShR(k, bv(3)), al)), Not(w.bit(k))), "idx"))
    return b


def c_copy(cx, st, a, ins):
    "a new bit string equal to the argument (proved: unit bits_copy)"
    v = BV(cx, st, a[0])
    b = new_bits(cx, st, v.len, v.sign, v.bit)
    w = BV(cx, st, b)
    cx.fact(st.pc, w.alloc == v.alloc)
    return b


class Op:
    """an operation on one bit string: result length, bits and domain as functions of the operand snapshot and the amount"""

    def __init__(self, func, spec, length=None, amount=False, dom=None, needs_clean=False, pos=(), via=False):
        self.via = via    # implemented by other operations
        self.pos = pos
        self.func, self.spec, self.amount, self.dom, self.needs_clean = func, spec, amount, dom, needs_clean
        self.length = length or (lambda v, am: v.len)

    def contract(self, cx, st, a, ins):
        "the in-place operation (proved: the unit of the same name)"
        v = BV(cx, st, a[0])
        am = a[1] if self.amount else None
        if self.dom and not cx.dry:
            cx.oblige(st, self.dom(v, am), "precondition-of-%sz" % self.func, "assert")
        L = simp(self.length(v, am))
        havoc_bits(cx, st, a[0], v, L, v.sign, lambda k: self.spec(v, am, k), CLEAN if self.needs_clean else TRUE)

    def units(self):
        me = self

        def pre(cx, st, derive=True):
            a = pre_one(None, "amount" if me.amount else None)(cx, st)
            v, am = cx.u["bits.v"], cx.u.get("amount")
            if me.dom:
                cx.assume(st, me.dom(v, am))
            cx.u["specs"].append(("spec", lambda k: me.spec(v, am, k)))
            cx.u["bases"].append(me.length(v, am))
            if me.pos and derive:
                cx.u["derived"] = [lambda k, f=f: f(v, am, k) for f in me.pos]
            return a

        def mkpost(copying):
            def post(cx, st0, st, args, rv):
                v, am = cx.u["bits.v"], cx.u.get("amount")
                r = rv if copying else cx.u["bits"]
                if copying:
                    yield from fresh_result(cx, rv)
                    yield from unchanged(cx, st0, st, "bits")
                    yield from others_unchanged(cx, st0, st, [])
                else:
                    yield from others_unchanged(cx, st0, st, ["bits"])
                yield from equals(cx, st, r, me.length(v, am), v.sign, lambda k: me.spec(v, am, k), given=CLEAN if me.needs_clean else TRUE)
                yield from is_clean(BV(cx, st, r))
            return post
        ks = {"bits_copy": c_copy}
        ks.update({o.func + "z": o.contract for o in OPS.values()})
        return [U(self.func + "z", pre if self.via else lambda cx, st: pre(cx, st, False), mkpost(False), contracts={k: x for k, x in ks.items() if k != self.func + "z"}),
                U(self.func, pre, mkpost(True), contracts=ks)]


def shift_spec(v, am, k):
    pos = k + am
    ok = z3.If(am >= 0, z3.ULT(pos, v.len), z3.UGE(k, -am))
    return And(ok, v.bit(pos))


def shiftr_spec(v, am, k):
    """rotation to the left by amount: result[k] = bits[(k + amount) mod len]"""
    return v.bit(modpos_f(k + am, v.len))


def len_spec(v, am, k):
    """lengthen: amount>0 adds zero bits in front, amount<0 behind"""
    return z3.If(am > 0, And(z3.UGE(k, am), v.bit(k - am)), And(z3.ULT(k, v.len), v.bit(k)))


def absl(am):
    return z3.If(am < 0, -am, am)


def short_spec(v, am, k):
    return z3.If(am > 0, v.bit(k + am), v.bit(k))


def shifti_spec(v, am, k):
    """shift that changes the length: amount>0 appends zeros, amount<0 drops the last bits"""
    return And(z3.ULT(k, v.len), v.bit(k))


R59 = 1 << 59
OPS = {o.func: o for o in (
    Op("bits_not", lambda v, am, k: Not(v.bit(k))),
    Op("bits_rot", lambda v, am, k: v.bit(v.len - 1 - k), pos=[lambda v, am, k: v.len - 1 - k]),
    Op("bits_shift", shift_spec, amount=True, dom=lambda v, am: am != bv(1 << 63), pos=[lambda v, am, k: k + am]),
    Op("bits_shiftr", shiftr_spec, amount=True, dom=lambda v, am: And(am <= bv(R59), am >= bv(-R59)), pos=[lambda v, am, k: modpos_f(k + am, v.len)]),
    Op("bits_lengthen", len_spec, lambda v, am: v.len + absl(am), True, lambda v, am: z3.ULE(absl(am), LIM), True, pos=[lambda v, am, k: k - am], via=True),
    Op("bits_shorten", short_spec, lambda v, am: v.len - absl(am), True, lambda v, am: z3.ULE(absl(am), v.len), pos=[lambda v, am, k: k + am], via=True),
    Op("bits_shifti", shifti_spec, lambda v, am: v.len + am, True, lambda v, am: And(z3.ULE(absl(am), LIM), Implies(am < 0, z3.ULE(absl(am), v.len))), True),
)}
for _o in OPS.values():
    UNITS += _o.units()


# ---------------------------------------------------------------- binary operations
def pre_two(cx, st):
    a, b = mkbits(cx, st, "one"), mkbits(cx, st, "other")
    v, w = cx.u["one.v"], cx.u["other.v"]
    n = z3.If(z3.UGT(v.len, w.len), v.len, w.len)
    cx.u["n"] = n
    cx.u["bases"] = [n]
    cx.u["revspecs"] = [("spec", lambda j: cx.u["op"](lowbit(v, j), lowbit(w, j)))]
    return [a, b]


def lowbit(v, j):
    """bit j from the least significant end, zero beyond the operand's length"""
    return And(z3.ULT(j, v.len), v.bit(v.len - 1 - j))


def bitwise(func, op, longer):
    """the two units of a function, first operand longer or not, are a complete case distinction"""
    def setup(cx):
        cx.u["op"] = op

    def pre(cx, st):
        a = pre_two(cx, st)
        v, w = cx.u["one.v"], cx.u["other.v"]
        cx.fact(TRUE, z3.UGT(v.len, w.len) if longer else z3.ULE(v.len, w.len))
        cx.u["n"] = v.len if longer else w.len
        cx.u["bases"] = [cx.u["n"]]
        return a

    def post(cx, st0, st, args, rv):
        v, w = cx.u["one.v"], cx.u["other.v"]
        yield from fresh_result(cx, rv)
        r, n = BV(cx, st, rv), cx.u["n"]
        yield "result-length", r.len == n
        yield from wf(cx, st, r)
        yield "result-bits-aligned-at-the-low-end", Forall(BV64, lambda j: Implies(z3.ULT(j, n), r.bit(n - 1 - j) == op(lowbit(v, j), lowbit(w, j))), "rev")
        yield from is_clean(BV(cx, st, rv), given=TRUE)
        yield from unchanged(cx, st0, st, "one")
        yield from unchanged(cx, st0, st, "other")
        yield from others_unchanged(cx, st0, st, [])
    return U(func, pre, post, setup=setup, name="%s/%s" % (func, "longer" if longer else "not-longer"), opts=dict(OPTS, decide=True))


for _l in (True, False):
    UNITS.append(bitwise("bits_or", z3.Or, _l))
    UNITS.append(bitwise("bits_and", z3.And, _l))


def post_eq(cx, st0, st, args, rv):
    v, w = cx.u["one.v"], cx.u["other.v"]
    r = rv if z3.is_bool(rv) else rv != 0
    yield "equal-implies-same-length-and-sign", Implies(r, And(v.len == w.len, v.sign == w.sign))
    yield "equal-implies-same-bits", Forall(BV64, lambda k: Implies(And(r, z3.ULT(k, v.len)), v.bit(k) == w.bit(k)), "idx")
    # different => some bit, the length or the sign differs: assume all bits equal and show equal
    yield "same-implies-equal", Implies(cx.u["allsame"], r)
    yield from others_unchanged(cx, st0, st, [])


def pre_eq(cx, st):
    a = pre_two(cx, st)
    v, w = cx.u["one.v"], cx.u["other.v"]
    s = z3.Bool("allsame")
    cx.u["allsame"] = s
    cx.fact(TRUE, Implies(s, And(v.len == w.len, v.sign == w.sign)))
    for j in range(8):   # bits of a byte
        pass
    cx.assume(st, Forall(BV64, lambda k: Implies(And(s, z3.ULT(k, v.len)), v.bit(k) == w.bit(k)), "idx"))
    # byte view of the same assumption, for the bytes completely inside and for the last, partial one
    n8 = z3.LShR(v.len, bv(3))

    def bytes8(k):
        return And(*[Implies(And(s, z3.ULT((k << 3) + j, v.len), z3.ULE(k, n8)), v.bit((k << 3) + j) == w.bit((k << 3) + j)) for j in range(8)])
    cx.assume(st, Forall(BV64, bytes8, "idx"))
    cx.trigger(n8, "idx")
    return a


UNITS.append(U("bits_eq", pre_eq, post_eq))


# ---------------------------------------------------------------- conversions
def V0(cx):
    return cx.u["bits.v"]


def post_to_raw(cx, st0, st, args, rv):
    v = V0(cx)
    yield "empty-gives-null", Implies(v.len == 0, isnull(rv))
    yield "new-buffer", Implies(v.len != 0, And(rv.o >= cx.st0.next, rv.f == 0, z3.UGE(cx.size(rv.o), bytelen(v.len))))
    r = row(cx, st, rv.o)
    yield "result-bytes", Forall(BV64, lambda k: Implies(And(v.len != 0, z3.ULT(k, bytelen(v.len))), z3.Select(r, rv.f + k) == v.byte(k)), "idx")
    yield from unchanged(cx, st0, st, "bits")
    yield from others_unchanged(cx, st0, st, [])


UNITS.append(U("bits_to_raw", pre_one(), post_to_raw))
UNITS.append(U("bits_to_rawlen", pre_one(), lambda cx, st0, st, args, rv: [("length-in-bytes", rv == bytelen(V0(cx).len))]))


def pre_from_raw(cx, st):
    n = z3.BitVec("bit_len", 64)
    cx.fact(TRUE, z3.ULE(n, LIM))
    p = obj(cx, st, "raw")
    cx.fact(TRUE, z3.UGE(cx.size(p.o), bytelen(n)))
    cx.u["n"], cx.u["raw"] = n, p
    r = row(cx, st, p.o)
    cx.u["rawrow"] = r
    return [p, n]


def post_from_raw(cx, st0, st, args, rv):
    r = cx.u["rawrow"]
    yield from fresh_result(cx, rv)
    yield from equals(cx, st, rv, cx.u["n"], z3.BoolVal(False), lambda k: rbit(r, bv(0), k))
    yield from is_clean(BV(cx, st, rv), given=TRUE)
    k = z3.BitVec("raw!k", 64)
    yield "argument-unchanged", z3.Select(row(cx, st, cx.u["raw"].o), k) == z3.Select(r, k)


UNITS.append(U("bits_from_raw", pre_from_raw, post_from_raw))


def pre_str(cx, st):
    p = obj(cx, st, "str")
    cx.fact(TRUE, z3.ULE(cx.size(p.o), LIM))
    r = row(cx, st, p.o)
    n = libc.strlen_f(r, p.f)
    libc.cstr_fact(cx, st, p, n)
    cx.fact(TRUE, z3.ULT(n, cx.size(p.o)))
    cx.u["str"], cx.u["slen"], cx.u["srow"] = p, n, r
    return [p]


def pre_bin(cx, st):
    a = pre_str(cx, st)
    r = cx.u["srow"]
    cx.u["specs"] = [("spec", lambda k: z3.Select(r, k) == 49)]
    return a


def post_from_bin(cx, st0, st, args, rv):
    r = cx.u["srow"]
    yield from fresh_result(cx, rv)
    yield from equals(cx, st, rv, cx.u["slen"], z3.BoolVal(False), lambda k: z3.Select(r, k) == 49)
    yield from is_clean(BV(cx, st, rv), given=TRUE)


UNITS.append(U("bits_from_bin", pre_bin, post_from_bin))


def nibval(c):
    return z3.If(And(z3.UGE(c, 48), z3.ULE(c, 57)), c - 48, z3.If(And(z3.UGE(c, 97), z3.ULE(c, 102)), c - 87, z3.If(
        And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55, bv(0, 8))))


def hexbit(r, k):
    """bit k of the string of nibbles"""
    d = nibval(z3.Select(r, z3.LShR(k, bv(2))))
    return z3.Extract(0, 0, z3.LShR(d, z3.ZeroExt(6, ~z3.Extract(1, 0, k)))) == bv(1, 1)


def pre_hex(cx, st):
    a = pre_str(cx, st)
    r = cx.u["srow"]
    return a


def hex_tmpl(cx, info):
    r = cx.u["srow"]
    for o in info.written.get("i8", []):
        if o is None:
            continue
        for p in info.phis:
            if p.ty.k == "i" and p.ty.n == 64:
                d = p.dst
                yield "%s.all-nibbles" % info.canon[d], (lambda s, d=d, o=o: Forall(BV64, lambda k: Implies(z3.ULT(z3.LShR(k, bv(3)), cx.size(o)), rbit(z3.Select(cx.getmem(s.st, "i8"), o), bv(0), k) == And(
                    z3.ULT(z3.LShR(k, bv(2)), s.phi[d]), hexbit(r, k))), "idx"))


def post_from_hex(cx, st0, st, args, rv):
    r = cx.u["srow"]
    yield from fresh_result(cx, rv)
    yield from equals(cx, st, rv, cx.u["slen"] * 4, z3.BoolVal(False), lambda k: hexbit(r, k))
    yield from is_clean(BV(cx, st, rv), given=TRUE)


UNITS.append(U("bits_from_hex", pre_hex, post_from_hex, templates=[hex_tmpl]))
