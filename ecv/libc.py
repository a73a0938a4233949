"""Assumed contracts of libc functions, of the allocation helpers (proved against the allocator model in C20) and of the
va_list prelude."""
import z3
from .theory import *
from .theory import F, C
from . import pari

TRUE = z3.BoolVal(True)
B8 = z3.BitVecSort(8)


@C("exit", "abort", "_exit", cat="libc")
def _exit(cx, st, a, ins):
    "does not return"
    st.pc = z3.BoolVal(False)
    return None


# ---------------------------------------------------------------- memory rows
def row(cx, st, o, c="i8"):
    cx.declare_class(c, B8 if c == "i8" else cx.classes[c])
    return z3.Select(cx.getmem(st, c), o)


def setrow(cx, st, o, r, c="i8"):
    cx.setmem(st, c, z3.Store(cx.getmem(st, c), o, r), o)


def byte(cx, st, p, k):
    return z3.Select(row(cx, st, p.o), p.f + k)


def untagged(cx):
    return [c for c in cx.classes if "@" not in c and c[0] not in "$#"]


K = z3.BitVec("k!lam", 64)


def copy_range(cx, st, dst, src, n, st_src=None):
    """dst[0..n) = src[0..n) in every untagged class"""
    st_src = st_src or st
    cx.declare_class("i8", B8)
    for c in untagged(cx):
        d, s = row(cx, st, dst.o, c), z3.Select(cx.getmem(st_src, c), src.o)
        new = z3.Lambda([K], z3.If(z3.And(z3.ULE(dst.f, K), z3.ULT(K - dst.f, n)), z3.Select(s, K - dst.f + src.f), z3.Select(d, K)))
        setrow(cx, st, dst.o, new, c)


def bounds(cx, st, p, n, what):
    """byte range [p, p+n) inside the object"""
    if cx.opts["memsafe"] and not cx.dry:
        off = p.f + bv(p.tag[1]) if p.tag else p.f
        cx.oblige(st, Or(n == 0, And(p.o != 0, z3.ULE(n, cx.size(p.o)), z3.ULE(off, cx.size(p.o) - n))),
                  "memory-%s-in-bounds" % what, "mem")


@C("memcpy", "memmove", cat="libc")
def _memcpy(cx, st, a, ins):
    "copies n bytes"
    d, s, n = a[:3]
    bounds(cx, st, d, n, "memcpy-dest")
    bounds(cx, st, s, n, "memcpy-src")
    if (d.tag or s.tag) or struct_like(cx, ins):
        struct_copy(cx, st, d, s, n)
        return d
    nv = simp(n)
    if z3.is_bv_value(nv) and structs_of_size(cx, nv.as_long()):
        # whole-struct copy: tagged classes of that size too
        struct_copy(cx, st, d, s, n)
    copy_range(cx, st, d, s, n, st.copy())
    return d


def struct_like(cx, ins):
    return False


def structs_of_size(cx, n):
    out = []
    for name in cx.mod.types:
        try:
            if cx.mod.size(ir.Ty("named", name=name)) == n:
                out.append(name)
        except Unsupported:
            pass
    return out


def struct_copy(cx, st, d, s, n):
    nv = simp(n)
    if not z3.is_bv_value(nv):
        raise Unsupported("memcpy of struct memory with symbolic size")
    n = nv.as_long()
    pre = st.copy()
    for c in list(cx.classes):
        if "@" not in c:
            continue
        tag = c.split("@")[0]
        off = int(c.split("@")[1].split(":")[0])
        bd, bs = (d.tag[1] if d.tag else 0), (s.tag[1] if s.tag else 0)
        if d.tag and d.tag[0] != tag:
            continue
        if s.tag and s.tag[0] != tag:
            continue
        if bs != bd:
            continue
        if not (bs <= off < bs + n):
            continue
        m = cx.getmem(st, c)
        x = z3.Select(z3.Select(cx.getmem(pre, c), s.o), s.f)
        cx.setmem(st, c, z3.Store(m, d.o, z3.Store(z3.Select(m, d.o), d.f, x)), d.o)


@C("memset", cat="libc")
def _memset(cx, st, a, ins):
    "fills n bytes"
    d, v, n = a[:3]
    bounds(cx, st, d, n, "memset")
    v8 = z3.Extract(7, 0, v) if v.size() > 8 else v
    nv = simp(n)
    full = False
    if z3.is_bv_value(nv):
        for c in list(cx.classes):
            if "@" in c:
                if d.tag and not c.startswith(d.tag[0] + "@"):
                    continue
                off = int(c.split("@")[1].split(":")[0])
                b = d.tag[1] if d.tag else 0
                if b <= off < b + nv.as_long() and (d.tag or struct_obj(cx, d, c, nv.as_long())):
                    m = cx.getmem(st, c)
                    z = cx.zero_of(cx.classes[c])
                    if not is_true(simp(v8 == 0)):
                        raise Unsupported("memset of struct with nonzero value")
                    cx.setmem(st, c, z3.Store(m, d.o, z3.Store(z3.Select(m, d.o), d.f, z)), d.o)
    cx.declare_class("i8", B8)
    for c in untagged(cx):
        s = cx.classes[c]
        r = row(cx, st, d.o, c)
        if c == "i8":
            x = v8
        elif is_true(simp(v8 == 0)):
            x = cx.zero_of(s)
        else:
            x = None
        if x is None:
            continue
        new = z3.Lambda([K], z3.If(z3.And(z3.ULE(d.f, K), z3.ULT(K - d.f, n)), x, z3.Select(r, K)))
        setrow(cx, st, d.o, new, c)
    cx.u.setdefault("zeroed_now", []).append((d, n))
    return d


def struct_obj(cx, d, c, n):
    tag = c.split("@")[0]
    t = ir.Ty("named", name=tag)
    try:
        return cx.mod.size(t) == n
    except Unsupported:
        return False


def newobj(cx, st, n, zero, name):
    p = Ptr(cx.alloc(st, n, zero=zero, name=name))
    return p


@C("try_calloc", "pari_calloc", cat="alloc")
def _calloc(cx, st, a, ins):
    "new zeroed object of n bytes (exits when out of memory)"
    return newobj(cx, st, a[0], True, "calloc")


@C("try_malloc", "pari_malloc", cat="alloc")
def _malloc(cx, st, a, ins):
    "new object of n bytes (exits when out of memory)"
    p = newobj(cx, st, a[0], False, "malloc")
    # contents unspecified: havoc the row of the new object
    for c in untagged(cx):
        setrow(cx, st, p.o, z3.Const(fresh_name("junk"), z3.ArraySort(BV64, cx.classes[c])), c)
    return p


@C("try_realloc", "pari_realloc", cat="alloc")
def _realloc(cx, st, a, ins):
    "new object of n bytes whose first min(old size, n) bytes are those of the old object"
    old, n = a
    p = newobj(cx, st, n, False, "realloc")
    if cx.opts["memsafe"] and not cx.dry:
        cx.oblige(st, old.f == 0, "realloc-of-block-start", "mem")
    osz = z3.If(old.o == 0, bv(0), cx.size(old.o))
    lim = z3.If(z3.ULT(osz, n), osz, n)
    cx.declare_class("i8", B8)
    for c in untagged(cx):
        s = row(cx, st, old.o, c)
        junk = z3.Const(fresh_name("junk"), z3.ArraySort(BV64, cx.classes[c]))
        setrow(cx, st, p.o, z3.Lambda([K], z3.If(z3.ULT(K, lim), z3.Select(s, K), z3.Select(junk, K))), c)
    return p


@C("try_memdup", cat="alloc")
def _memdup(cx, st, a, ins):
    "new object of n bytes, a copy of the argument"
    src, n = a
    bounds(cx, st, src, n, "memdup-src")
    p = _malloc(cx, st, [n], ins)
    copy_range(cx, st, p, src, n)
    return p


@C("try_free", "free", cat="alloc")
def _free(cx, st, a, ins):
    "releases the object"
    if "$alive" in st.mem:
        cx.setmem(st, "$alive", z3.Store(st.mem["$alive"], a[0].o, z3.BoolVal(False)), a[0].o)
    return None


# ---------------------------------------------------------------- strings
def cstr_fact(cx, st, p, n):
    """p[0..n) has no NUL, p[n] is NUL"""
    r = row(cx, st, p.o)
    s = st.copy()
    s.pc = TRUE
    cx.assume(s, Forall(BV64, lambda k: Implies(z3.ULT(k, n), z3.Select(r, p.f + k) != 0), "idx"))
    cx.fact(TRUE, z3.Select(r, p.f + n) == 0)


strlen_f = F("strlen", z3.ArraySort(BV64, B8), BV64, BV64)


@C("strlen", cat="libc")
def _strlen(cx, st, a, ins):
    "index of the first NUL"
    p = a[0]
    s = simp(p.o)
    if z3.is_int_value(s):
        lit = literal(cx, p)
        if lit is not None:
            return bv(len(lit))
    n = simp(strlen_f(row(cx, st, p.o), p.f))
    cstr_fact(cx, st, p, n)
    cx.fact(TRUE, z3.ULT(n, bv(1 << 40)))
    if cx.opts["memsafe"]:
        cx.fact(st.pc, z3.ULT(p.f + n, cx.size(p.o)))
    return n


def literal(cx, p):
    """bytes of a constant string, or None"""
    o = simp(p.o)
    if not z3.is_int_value(o):
        return None
    name = next((n for n, x in cx.gobj.items() if x == o.as_long()), None)
    if name is None or name not in cx.mod.globals:
        return None
    ty, init, const = cx.mod.globals[name]
    f = simp(p.f)
    if not const or init is None or init.k not in ("str", "zero") or not z3.is_bv_value(f):
        return None
    b = init.v if init.k == "str" else b"\0"
    b = b[f.as_long():]
    return b.split(b"\0")[0]


def hexdigit(n4):
    """ASCII of a 4-bit value, lower case"""
    n = z3.ZeroExt(4, n4)
    return z3.If(z3.ULT(n, bv(10, 8)), n + bv(48, 8), n + bv(87, 8))


@C("sprintf", cat="libc")
def _sprintf(cx, st, a, ins):
    "formatted output; supported formats: literal text, %02x of a byte, %1u / %u / %d / %i of a one-digit value, %s"
    p = a[0]
    fmt = literal(cx, a[1])
    if fmt is None:
        raise Unsupported("sprintf format")
    out = []
    i, j = 0, 2
    while i < len(fmt):
        if fmt[i:i + 1] != b"%":
            out.append(bv(fmt[i], 8))
            i += 1
        elif fmt[i:i + 4] == b"%02x":
            v = a[j]
            if not cx.dry:
                cx.oblige(st, z3.ULT(v, bv(256, v.size())), "sprintf-%02x-argument-is-a-byte", "assert")
            out += [hexdigit(z3.Extract(7, 4, v)), hexdigit(z3.Extract(3, 0, v))]
            i, j = i + 4, j + 1
        else:
            k = next((f for f in (b"%1u", b"%u", b"%d", b"%i", b"%1d", b"%01u", b"%hhu", b"%zu", b"%lu", b"%c") if fmt.startswith(f, i)), None)
            if k is None:
                raise Unsupported("sprintf format %r" % fmt)
            v = a[j]
            if k == b"%c":
                out.append(z3.Extract(7, 0, v))
            else:
                if not cx.dry:
                    cx.oblige(st, z3.ULT(v, bv(10, v.size())), "sprintf-one-digit-argument", "assert")
                out.append(z3.Extract(7, 0, v) + bv(48, 8))
            i, j = i + len(k), j + 1
    out.append(bv(0, 8))
    bounds(cx, st, p, bv(len(out)), "sprintf")
    r = row(cx, st, p.o)
    for n, x in enumerate(out):
        r = z3.Store(r, p.f + n, x)
    setrow(cx, st, p.o, r)
    return bv(len(out) - 1, 32)


@C("memcmp", cat="libc")
def _memcmp(cx, st, a, ins):
    "0 iff the n bytes agree"
    x, y, n = a
    bounds(cx, st, x, n, "memcmp")
    bounds(cx, st, y, n, "memcmp")
    r = z3.BitVec(fresh_name("memcmp"), 32)
    rx, ry = row(cx, st, x.o), row(cx, st, y.o)
    w = z3.BitVec(fresh_name("memcmp_w"), 64)
    s = st.copy()
    cx.assume(s, Forall(BV64, lambda k: Implies(z3.And(r == 0, z3.ULT(k, n)), z3.Select(rx, x.f + k) == z3.Select(ry, y.f + k)), "idx"))
    cx.fact(TRUE, Implies(r != 0, z3.And(z3.ULT(w, n), z3.Select(rx, x.f + w) != z3.Select(ry, y.f + w))))
    cx.trigger(w, "idx")
    return r


# ---------------------------------------------------------------- va_list
def va_seq(cx, st, ap, k):
    cx.declare_class("#va.o", INT)
    cx.declare_class("#va.f", BV64)
    return Ptr(z3.Select(z3.Select(cx.getmem(st, "#va.o"), ap.o), k), z3.Select(z3.Select(cx.getmem(st, "#va.f"), ap.o), k))


def va_pos(cx, st, ap):
    cx.declare_class("#vapos", BV64)
    return z3.Select(z3.Select(cx.getmem(st, "#vapos"), ap.o), ap.f)


def set_va_pos(cx, st, ap, v):
    cx.declare_class("#vapos", BV64)
    m = cx.getmem(st, "#vapos")
    cx.setmem(st, "#vapos", z3.Store(m, ap.o, z3.Store(z3.Select(m, ap.o), ap.f, v)), ap.o)


@C("ecv_va_arg", cat="prelude")
def _va_arg(cx, st, a, ins):
    "next pointer argument"
    ap = a[0]
    pos = simp(va_pos(cx, st, ap))
    p = va_seq(cx, st, ap, pos)
    p = Ptr(simp(p.o), simp(p.f))
    set_va_pos(cx, st, ap, simp(pos + 1))
    h = cx.u.get("va_hook")
    if h:
        h(cx, st, ap, pos, p)
    return p


@C("ecv_va_start", cat="prelude")
def _va_start(cx, st, a, ins):
    "starts at the first variadic argument of the enclosing function"
    ap = a[0]
    va = cx.frames[-1].va
    if va is None:
        raise Unsupported("va_start in %s" % cx.callstack[-1])
    src = va if isinstance(va, Ptr) else None
    cx.declare_class("#va.o", INT)
    cx.declare_class("#va.f", BV64)
    if src is not None:      # symbolic argument list (unit precondition)
        for c in ("#va.o", "#va.f"):
            m = cx.getmem(st, c)
            cx.setmem(st, c, z3.Store(m, ap.o, z3.Select(m, src.o)), ap.o)
    else:
        ro = z3.Select(cx.getmem(st, "#va.o"), ap.o)
        rf = z3.Select(cx.getmem(st, "#va.f"), ap.o)
        for i, x in enumerate(va):
            if isinstance(x, Ptr):
                ro, rf = z3.Store(ro, bv(i), x.o), z3.Store(rf, bv(i), x.f)
        for c, r in (("#va.o", ro), ("#va.f", rf)):
            m = cx.getmem(st, c)
            cx.setmem(st, c, z3.Store(m, ap.o, r), ap.o)
    set_va_pos(cx, st, ap, bv(0))
    return None


@C("ecv_va_end", cat="prelude")
def _va_end(cx, st, a, ins):
    "no effect"
    return None


# ---------------------------------------------------------------- stdio (output only: no effect on the state)
@C("fprintf", "printf", "fflush", "fputs", "fputc", "puts", "putchar", "perror", "pari_fprintf", "pari_printf", "fwrite", cat="libc")
def _out(cx, st, a, ins):
    "diagnostic output, no effect on program state"
    return cx.fresh(ins.ty, "io") if ins.ty.k != "void" else None
