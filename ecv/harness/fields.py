"""C13: what is accepted from the user, drawn at random and reported, on the real program."""
from .common import *


def gf2_mul(a, b, f, m):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a >> m & 1:
            a ^= f
    return r


def gf2_gcd(a, b):
    while b:
        while a and a.bit_length() >= b.bit_length():
            a ^= b << (a.bit_length() - b.bit_length())
        a, b = b, a
    return a


def irreducible(f):
    m = f.bit_length() - 1
    if m < 1:
        return False
    if m == 1:
        return True
    x = 2
    pr = [p for p in range(2, m + 1) if m % p == 0 and all(p % q for q in range(2, p))]
    t, pw = 2 if m > 1 else 0, {}
    for i in range(1, m + 1):
        t = gf2_mul(t, t, f, m)
        pw[i] = t
    if pw[m] != x:
        return False
    return all(gf2_gcd(f, pw[m // p] ^ x) == 1 for p in pr)


def mr(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Proto:
    """the documented protocol: field, then a, then b, each asked again until valid; a singular curve starts over"""

    def __init__(self, kind, bits, toks, given=None):
        self.kind, self.bits, self.t, self.i = kind, bits, toks, 0

    def rd(self, bits=None):
        """None at the end, -1 for 'ask again'"""
        if self.i >= len(self.t):
            raise EOFError
        s = self.t[self.i]
        self.i += 1
        if s == "":
            return -1
        try:
            v = int(s)
        except ValueError:
            v = 0
        return v if v < 1 << (self.bits if bits is None else bits) else -1

    def field(self):
        while True:
            if self.kind == "fp":
                p = self.rd()
                if mr(p):
                    return p
                continue
            m = self.rd(16)
            if m != self.bits:
                continue
            es = []
            for _ in range(3):
                e = self.rd(16)
                if e < 0 or e > m:
                    break
                es.append(e)
            if len(es) < 3 or not any(es):
                continue
            f = 1 << m | 1
            for e in es:
                f |= 1 << e
            if irreducible(f):
                return f

    def run(self):
        try:
            while True:
                f = self.field()
                while True:
                    a = self.rd()
                    if a != -1:
                        break
                while True:
                    b = self.rd()
                    if b != -1:
                        break
                if self.kind == "fp":
                    a %= f
                    b %= f
                    if (4 * a ** 3 + 27 * b * b) % f:
                        return f, a, b
                elif b:
                    return f, a, b
        except EOFError:
            return None


def fieldpoly(c):
    f = 1 << c.m | 1
    for e in c.e:
        if e:
            f |= 1 << e
    return f


def c13_fields(nat):
    rng = nat.rng
    jobs, want = [], []
    primes = [p for p in range(5, 3000) if mr(p)]

    def j(args, toks, w, sep="\n"):
        jobs.append((args, "".join(t + sep for t in toks)))
        want.append(w)

    def junk(bits, kind):
        c = ["", "-1", str(1 << bits), str((1 << bits) + rng.randrange(1 << bits)), str(1 << (bits + 70)), str(1 << 200)]
        if kind == "p":
            c += ["4", "0", "1", "-7", "abc", str(rng.randrange(2, 30) * rng.randrange(2, 30)), "561", "341"]
        return rng.choice(c)
    n = 60 if nat.tier == "quick" else 300
    for k in range(n):
        bits = rng.choice([4, 5, 6, 8, 10, 11, 16, 20])
        toks = []

        def val(good, kind):
            while rng.random() < 0.35:
                toks.append(junk(bits, kind))
            toks.append(good)
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = rng.choice([x for x in primes if x < 1 << bits])
            val(str(p), "p")
            if rng.random() < 0.4:
                # singular: a = -3 c^2, b = 2 c^3
                c = rng.randrange(p)
                val(str(-3 * c * c % p), "a")
                val(str(2 * c ** 3 % p), "b")
            else:
                val(str(rng.randrange(1 << bits)), "a")
                val(str(rng.choice([0, rng.randrange(1 << bits), (1 << bits) - 1])), "b")
        if rng.random() < 0.25:
            toks = toks[:rng.randrange(len(toks))]
        j(["--fp", "--points=none", str(bits)], toks, Proto("fp", bits, toks).run())
        # f2m
        bits = rng.choice([3, 5, 7, 8, 9, 11, 15])
        toks = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            if rng.random() < 0.3:
                toks.append(rng.choice(["", "-1", str(bits + 1), str(bits - 1), "0", str(1 << 16), str(bits + 65536), str(1 << 90)]))
            es = [str(rng.randrange(bits)) for _ in range(3)]
            x = rng.random()
            if x < 0.25:
                es[rng.randrange(3)] = rng.choice(["", "-1", str(bits + 1), "-3", str(bits), str(1 << 17)])
            elif x < 0.35:
                es = ["0", "0", "0"]
            elif x < 0.6:
                # a good one
                t = [(a, b, c) for a in range(1, bits) for b in range(a) for c in range(b + 1) if (b == 0) == (c == 0)
                     and irreducible(1 << bits | 1 << a | 1 << b | 1 << c | 1)]
                if t:
                    es = [str(y) for y in rng.choice(t)]
                    rng.shuffle(es)
            toks += [str(bits)] + es
            # values follow in any case; after a rejected field they are taken as m
            toks += [str(rng.randrange(1 << bits)), str(rng.choice([0, rng.randrange(1, 1 << bits)]))]
        if rng.random() < 0.8:
            t = [(a, b, c) for a in range(1, bits) for b in range(a) for c in range(b + 1) if (b == 0) == (c == 0)
                 and irreducible(1 << bits | 1 << a | 1 << b | 1 << c | 1)]
            toks += [str(bits)] + [str(y) for y in rng.choice(t or [(1, 0, 0)])] + [str(rng.randrange(1 << bits)), str(rng.randrange(1, 1 << bits))]
        j(["--f2m", "--points=none", str(bits)], toks, Proto("f2m", bits, toks).run())
    # large ones
    for p in (2 ** 127 - 1, 2 ** 89 - 1, 2 ** 61 - 1):
        toks = [str(p * 3), str(p - 2), str(p), str(p + 5), "7"]
        j(["--fp", "--points=none", str(p.bit_length() + 2)], toks, Proto("fp", p.bit_length() + 2, toks).run())
    nin = len(jobs)
    # random fields
    rnd = []
    for _ in range(1 if nat.tier == "quick" else 4):
        for b in (3, 4, 5, 6, 7, 8, 12, 17, 24, 31, 32, 33, 48, 63, 64, 65, 80):
            rnd.append(["--fp", "-r", "--points=none", str(b)])
            if b in (5, 12, 33):
                rnd.append(["--fp", "-rfield,a,b", "--points=none", str(b)])
                rnd.append(["--fp", "-r", "-u", "--points=none", str(b)])
        for b in (3, 4, 5, 7, 9, 11, 16, 23, 30):
            rnd.append(["--f2m", "-r", "--points=none", str(b)])
        rnd.append(["--fp", "-r", "-c", "6", "--points=none", "9"])
    jobs += [(a, "") for a in rnd]
    # coefficients drawn over a given field, given over a drawn one
    mix = []
    for b in (5, 9, 14):
        p = rng.choice([x for x in primes if x.bit_length() == b] or [31])
        mix.append((["--fp", "-ra,b", "--points=none", str(b)], "%d\n" % p * 40, ("p", p)))
        mix.append((["--fp", "-ra", "--points=none", str(b)], "%d\n3\n" % p * 40, ("pb", p, 3)))
        mix.append((["--fp", "-rb", "--points=none", str(b)], "%d\n2\n" % p * 40, ("pa", p, 2)))
        mix.append((["--fp", "-rfield", "--points=none", str(b)], "2\n3\n" * 40, ("ab", 2, 3)))
    jobs += [(a, s) for a, s, _ in mix]
    rs = runs(nat, jobs)
    for r, w in zip(rs[:nin], want):
        if r is None:
            continue
        nat.case()
        if w is None:
            if r.rc is None:
                nat.fail("end-of-input", "%s does not end: no field or curve in the input" % where(r))
            elif r.rc == 0 or (r.curves is None or r.curves):
                nat.fail("rejected-input-accepted", "%s: exit %s, output %r: everything entered is invalid or incomplete" % (where(r), r.rc, r.out[-300:]))
            continue
        cs = usable(nat, r)
        if cs is None:
            continue
        c = cs[0]
        got = (c.p if c.p is not None else fieldpoly(c), c.a, c.b)
        if got != w or len(cs) != 1:
            nat.fail("accepted-values", "%s: field, a, b are %s, expected %s" % (where(r), got, w))
        if c.m is not None:
            ex = [e for e in c.e if e]
            if c.m != w[0].bit_length() - 1 or sum(1 << e for e in ex) != w[0] ^ 1 ^ (1 << c.m):
                nat.fail("reported-exponents", "%s: %s are not the exponents of the modulus" % (where(r), c.d["field"]))
    for r in rs[nin:nin + len(rnd)]:
        bits = int(r.args[-1]) if r else 0
        for c in usable(nat, r) or []:
            if c.p is not None:
                if not mr(c.p) or c.p.bit_length() != bits:
                    nat.fail("random-field", "%s: p = %d is not a prime of %d bits" % (where(r), c.p, bits))
            elif c.m != bits or not irreducible(fieldpoly(c)):
                nat.fail("random-field", "%s: %s does not define GF(2^%d)" % (where(r), c.d["field"], bits))
            if not (0 <= c.a < c.q and 0 <= c.b < c.q):
                nat.fail("random-coefficient", "%s: not elements of the field" % where(r))
    for r, (a, s, w) in zip(rs[nin + len(rnd):], mix):
        for c in usable(nat, r) or []:
            ok = {"p": lambda: c.p == w[1], "pb": lambda: (c.p, c.b) == (w[1], 3 % w[1]), "pa": lambda: (c.p, c.a) == (w[1], 2),
                  "ab": lambda: (c.a, c.b) == (2 % c.p, 3 % c.p) and mr(c.p) and c.p.bit_length() == int(a[-1])}[w[0]]()
            if not ok:
                nat.fail("given-values", "%s: %s is not made of the values given" % (where(r), c.d))
