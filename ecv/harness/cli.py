"""Bounded stand-ins that run the real program over small fields; the oracle is gp (point counting, discrete logarithms)."""
import random
from .common import *

THOR = 6      # thorough runs this many times more cases


def reps(nat, n):
    return n * (THOR if nat.tier == "thorough" else 1)


def curve_tests(c, w):
    """order of the curve"""
    yield ("order-exact", "ellcard(E)==%d" % c.n, "order of the curve is not %d: %s: %s" % (c.n, w, c.d))


def gens_tests(c, w):
    for i, s in enumerate(c.subs):
        P = c.pt(s)
        yield ("generator-on-curve", "ellisoncurve(E,%s)" % P, "generator %d is not on the curve: %s: %s" % (i, w, c.d))
        yield ("generator-order", "ellorder(E,%s)==%d" % (P, s.o), "generator %d has another order: %s: %s" % (i, w, c.d))
        yield ("generator-cofactor", "%d==ellcard(E)" % (s.o * (s.cof if s.cof is not None else 0)), "order times cofactor of generator %d: %s: %s" % (i, w, c.d))


# ---------------------------------------------------------------- C05
def c05_order(nat):
    rng = nat.rng
    jobs, want = [], []

    def j(args, w=None, stdin=""):
        jobs.append((args, stdin))
        want.append(w)
    for k in range(reps(nat, 1)):
        for b in (5, 6, 8, 11, 16, 24, 33, 64):
            j(["--fp", "-r", "--points=none", str(b)])
        for b in (5, 7, 9, 12, 18, 33):
            j(["--f2m", "-r", "--points=none", str(b)])
        for b in (8, 12, 20, 40, 72):
            j(["--fp", "-r", "-p", "--points=none", str(b)], ("cof", 1))
        for b, kk in ((8, 2), (9, 3), (12, 4), (16, 6), (24, 10), (32, 8), (40, 1)):
            j(["--fp", "-r", "-k", str(kk), "--points=none", str(b)], ("cof", kk))
        for b, kk in ((8, 2), (9, 4), (12, 2), (14, 4), (19, 6)):
            j(["--f2m", "-r", "-k", str(kk), "--points=none", str(b)], ("cof", kk))
        for b, kk in ((8, 4), (12, 5), (16, 7), (24, 10), (30, 12)):
            j(["--fp", "-r", "-B", str(kk), "--points=none", str(b)], ("smooth", kk))
        for b, kk in ((8, 4), (11, 6), (18, 9)):
            j(["--f2m", "-r", "-B", str(kk), "--points=none", str(b)], ("smooth", kk))
        for m in (6, 11, 13, 19, 23, 28, 41, 97, 113, 131):
            j(["--f2m", "-r", "-K%d" % (m % 2), "--points=none", str(m)])
            j(["--f2m", "-r", "-K%d" % ((m + 1) % 2), "--points=none", str(m)])
        for m in (6, 11, 30, 97, 109):
            j(["--fp", "-r", "-K%d" % (m % 2), "--points=none", str(m)])
            j(["--fp", "-r", "-K%d" % (1 - m % 2), "--points=none", str(m)])
        # seeded
        for b in (10, 16, 24):
            j(["--fp", "-r", "-s" + rx(rng, 40), "-p", "--points=none", str(b)], ("cof", 1))
            j(["--fp", "-r", "-s" + rx(rng, 40), "-k", "2", "--points=none", str(b)], ("cof", 2))
            j(["--fp", "-r", "-s" + rx(rng, 40), "-B", "8", "--points=none", str(b)], ("smooth", 8))
        # given curves: several are rejected before one is accepted
        for p, ab in ((1009, [(rng.randrange(1009), rng.randrange(1009)) for _ in range(300)]),):
            for opt, w in ((["-p"], ("cof", 1)), (["-k", "2"], ("cof", 2)), (["-B", "6"], ("smooth", 6)), ([], None)):
                s = "".join("%d\n%d\n%d\n" % (p, a, b) for a, b in ab)
                j(["--fp"] + opt + ["--points=none", "10"], w, s)
        j(["--fp", "-r", "-p", "-c", "3", "--points=none", "14"], ("cof", 1))
    g = GP(nat)
    for r, w in zip(runs(nat, jobs), want):
        cs = usable(nat, r)
        for c in cs or []:
            nat.samples.append(str(c.d)[:200]) if len(nat.samples) < 4 else None
            ts = list(curve_tests(c, where(r)))
            if w and w[0] == "cof":
                ts.append(("cofactor-times-prime", "%d%%%d==0 && ispseudoprime(%d/%d)" % (c.n, w[1], c.n, w[1]), "order %d is not %d times a prime: %s" % (c.n, w[1], where(r))))
            if w and w[0] == "smooth":
                ts.append(("smooth", "my(f=factor(%d)[,1]);#f==0||#binary(vecmax(f))<=%d" % (c.n, w[1]), "order %d has a prime factor of more than %d bits: %s" % (c.n, w[1], where(r))))
            g.add(c.gp(), ts)
    g.go()


# ---------------------------------------------------------------- C06
def c06_gens(nat):
    jobs, want = [], []

    def j(args, w=None, stdin=""):
        jobs.append((args, stdin))
        want.append(w)
    for k in range(reps(nat, 1)):
        for b in (4, 5, 6, 7, 8, 10, 13, 20):
            for _ in range(4):
                j(["--fp", "-r", "--points=none", str(b)])
        for b in (5, 6, 8, 9, 10):
            for _ in range(3):
                j(["--f2m", "-r", "--points=none", str(b)])
        for b in (5, 6, 8, 12):
            for _ in range(3):
                j(["--fp", "-r", "-u", "--points=none", str(b)], ("one",))
            j(["--f2m", "-r", "-u", "--points=none", str(b + 1)], ("one",))
        for b, kk in ((6, 2), (6, 4), (7, 4), (8, 4), (8, 8), (9, 9), (8, 3), (10, 6), (12, 4), (10, 16), (11, 12), (16, 1)):
            for _ in range(5):
                j(["--fp", "-r", "-k", str(kk), "--points=none", str(b)], ("cof", kk))
        for b, kk in ((7, 2), (8, 4), (8, 2), (11, 4)):
            for _ in range(2):
                j(["--f2m", "-r", "-k", str(kk), "--points=none", str(b)], ("cof", kk))
        j(["--fp", "-r", "-k", "4", "-u", "--points=none", "9"], ("one",))
        # every curve over a small field given explicitly, also several curves with two generators
        p = 31
        for a in range(0, p, 5):
            j(["--fp", "--points=none", "5"], None, "%d\n%d\n%d\n" % (p, a, 1 + a % 7))
        j(["--fp", "-u", "--points=none", "5"], ("one",), "".join("13\n%d\n%d\n" % (a, b) for a in range(4) for b in range(1, 13)))
    g = GP(nat)
    for r, w in zip(runs(nat, jobs), want):
        for c in usable(nat, r) or []:
            ts = list(gens_tests(c, where(r)))
            subs = c.subs
            if w and w[0] == "one":
                ts.append(("unique", "%d==1 && #ellgroup(E)==1" % len(subs), "not exactly one generator: %s: %s" % (where(r), c.d)))
                ts.append(("unique-full-order", "%d==ellcard(E)" % (subs[0].o if subs else 0), "generator not of full order: %s" % where(r)))
            if w and w[0] == "cof":
                if not subs or subs[0].cof != w[1] or subs[0].o * w[1] != c.n:
                    nat.fail("cofactor-generator", "first generator does not have order %d/%d and that cofactor: %s: %s" % (c.n, w[1], where(r), c.d))
                subs = subs[1:]
            ords = "[" + ",".join(str(s.o) for s in subs) + "]"
            ts.append(("all-generators", "my(v=ellgroup(E));if(#v==0,#%s==0,#v==#%s && lcm(%s)==v[1])" % (ords, ords, ords), "generators are not those of the group: %s: %s" % (where(r), c.d)))
            if len(subs) == 2:
                P, Q = c.pt(subs[0]), c.pt(subs[1])
                # two points generate Z/d1 x Z/d2 iff their Weil pairing has order d2
                ts.append(("generators-generate", "my(v=ellgroup(E));my(w=ellweilpairing(E,%s,%s,v[1]));my(k=1,u=w);while(u!=1,u*=w;k++);k==v[2]" % (P, Q), "generators do not generate the group: %s: %s" % (where(r), c.d)))
            g.add(c.gp(), ts)
    g.go()


# ---------------------------------------------------------------- C07
def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


def c07_points(nat):
    jobs, want = [], []

    def j(args, w, stdin=""):
        jobs.append((args, stdin))
        want.append(w)
    for k in range(reps(nat, 1)):
        for b in (4, 5, 6, 7, 8, 9, 10, 11):
            for t in ("prime", "nonprime", "all"):
                for _ in range(2):
                    j(["--fp", "-r", "--points=" + t, str(b)], t)
        for b in (5, 6, 8, 9):
            for t in ("prime", "nonprime", "all"):
                j(["--f2m", "-r", "--points=" + t, str(b)], t)
        for b in (4, 5, 6, 8, 12):
            j(["--fp", "-r", str(b)], "prime")
            j(["--fp", "-r", "-p", "--points=all", str(b + 2)], "all")
            j(["--fp", "-r", "-p", "--points=nonprime", str(b + 2)], "nonprime")
        for b, n in ((4, 1), (4, 7), (5, 9), (6, 5), (8, 12), (11, 3), (16, 5)):
            j(["--fp", "-r", "--points=%drandom" % n, str(b)], n)
            j(["--f2m", "-r", "--points=%drandom" % n, str(b + 1)], n)
        for b in (4, 5, 8):
            for _ in range(3):
                j(["--fp", "-r", "--points=random", str(b)], "one")
        for t in ("prime", "nonprime", "all"):
            # smooth orders with repeated primes, noncyclic groups
            j(["--fp", "-r", "-B", "3", "--points=" + t, "10"], t)
            j(["--fp", "-r", "-B", "2", "--points=" + t, "9"], t)
        j(["--fp", "-r", "--points=none", "9"], "none")
        j(["--fp", "-r", "-c", "3", "--points=all", "8"], "all")
    g = GP(nat)
    for r, w in zip(runs(nat, jobs), want):
        for c in usable(nat, r) or []:
            ts = []
            for i, s in enumerate(c.subs):
                G = c.pt(s)
                os_ = sorted(p.o for p in s.points)
                ds = divisors(s.o)
                exp = None
                if w == "prime":
                    exp = [d for d in ds if is_prime(d)]
                elif w == "all":
                    exp = ds[1:]
                elif w == "nonprime":
                    exp = [d for d in ds[1:] if not is_prime(d)]
                elif w == "none":
                    exp = []
                if exp is not None and os_ != exp:
                    nat.fail("point-set-" + w, "subgroup %d of order %d has points of orders %s, not %s: %s: %s" % (i, s.o, os_, exp, where(r), c.d))
                for p in s.points:
                    P = c.pt(p)
                    ts.append(("point-order", "ellisoncurve(E,%s) && ellorder(E,%s)==%d" % (P, P, p.o), "point has not its stated order: %s: subgroup %d %s" % (where(r), i, p.d)))
                    ts.append(("point-in-subgroup", "ptin(E,%s,%s,%d)" % (P, G, s.o), "point not in its subgroup: %s: subgroup %d %s" % (where(r), i, p.d)))
                    if p.o < 2:
                        nat.fail("point-at-infinity", "%s: %s" % (where(r), p.d))
            tot = sum(len(s.points) for s in c.subs)
            if isinstance(w, int) and tot != w:
                nat.fail("random-count", "%d points instead of %d: %s: %s" % (tot, w, where(r), c.d))
            if w == "one" and tot != 1:
                nat.fail("random-count", "%d points instead of 1: %s: %s" % (tot, where(r), c.d))
            g.add(c.gp(), ts)
    g.go()


# ---------------------------------------------------------------- C08
import hashlib


def sha1(n, bits):
    "an incomplete last byte is filled up with zero bits"
    return int.from_bytes(hashlib.sha1((n << (-bits % 8)).to_bytes((bits + 7) // 8, "big")).digest(), "big")


def ansi_r(seed, g, t, prime):
    """value derived from the seed (an integer of g bits), ANSI X9.62 A.3.3"""
    s = (t - 1) // 160
    h = t - 160 * s
    c = sha1(seed, g) & ((1 << h) - 1)
    if prime:
        c &= ~(1 << (h - 1))
    for i in range(1, s + 1):
        c = (c << 160) | sha1((seed + i) % (1 << g), g)
    return c


def c08_ansi(nat):
    rng = nat.rng
    jobs, want = [], []

    def j(args, stdin=""):
        jobs.append((args, stdin))
    seeds = ["f" * 40, "0" * 39 + "1", "00" + rx(rng, 38), "f" * 41, "ff" + "f" * 46, "0000" + rx(rng, 60), rx(rng, 41), rx(rng, 43), rx(rng, 64),
             "f" * 39 + "e", "7" + "f" * 39]
    for k in range(reps(nat, 1)):
        for b in (7, 8, 9, 16, 23, 40, 64, 65, 96, 112, 128, 159):
            j(["--fp", "-r", "-s0x" + rx(rng, 40), "--points=none", str(b)])
            j(["--fp", "-r", "-s" + rng.choice(seeds), "--points=none", str(b)])
        for b in (160, 161, 162, 167, 168, 176):
            j(["--fp", "-r", "-s" + rng.choice(seeds), "--points=none", str(b)])
        for b in (7, 8, 9, 12, 31, 64, 97, 128, 159, 160, 161, 163, 168, 191, 233, 283):
            j(["--f2m", "-r", "-s" + rng.choice(seeds), "--points=none", str(b)])
            j(["--f2m", "-r", "-s0X" + rx(rng, 40 + rng.randrange(5)), "--points=none", str(b)])
        j(["--fp", "-r", "-s", "--points=none", "20"])
        j(["--f2m", "-r", "-s", "--points=none", "163"])
        j(["--fp", "-r", "-s" + rx(rng, 40), "-p", "--points=none", "24"])
        # interactive: too short or not hexadecimal seeds are asked for again
        good = rx(rng, 40)
        for bad in ("abc", rx(rng, 39), "0x" + rx(rng, 39), rx(rng, 39) + "g", "xx" + rx(rng, 40), ""):
            j(["--fp", "-rfield,a,b", "-s", "--points=none", "16"], "%s\n%s\n" % (bad, good))
        j(["--f2m", "-rfield,a,b", "-s", "--points=none", "16"], "%s\n0x%s\n" % ("12", good + "ab"))
    g = GP(nat)
    for r in runs(nat, jobs):
        for c in usable(nat, r) or []:
            w = where(r)
            arg = next((a[2:] for a in r.args if a.startswith("-s") and len(a) > 2), None)
            if arg is None and r.stdin:
                arg = r.stdin.split("\n")[1]
            hx = c.seed or ""
            if not hx.startswith("0x"):
                nat.fail("seed-reported", "%s: seed %r" % (w, hx))
                continue
            hx = hx[2:]
            if arg is not None:
                a = arg[2:] if arg[:2].lower() == "0x" else arg
                if int(a, 16) != int(hx, 16) or (len(a) + 1) // 2 * 2 != len(hx):
                    nat.fail("seed-reported", "%s: reported seed %s is not the one given" % (w, hx))
                hx = a
            g_ = 4 * len(hx)
            if g_ < 160:
                nat.fail("seed-short", "%s: seed %s" % (w, hx))
            bits = int(r.args[-1] if not r.args[-1].startswith("--mem") else r.args[-2])
            rv = ansi_r(int(hx, 16), g_, bits, c.p is not None)
            if c.p is not None:
                if c.p.bit_length() != bits or not (0 <= c.a < c.p and 0 <= c.b < c.p):
                    nat.fail("coefficients", "%s: %s" % (w, c.d))
                if (rv * c.b * c.b - c.a ** 3) % c.p:
                    nat.fail("r-b2-a3", "r*b^2 != a^3 for the r of seed %s (r=%x): %s: %s" % (hx, rv, w, c.d))
            elif c.b != rv or rv == 0:
                nat.fail("b-is-derived", "b is not the value %x derived from seed %s: %s: %s" % (rv, hx, w, c.d))
    # rejected on the command line
    for bad in ("abc", rx(rng, 39), "0x" + rx(rng, 39), rx(rng, 39) + "g"):
        rc, out, err = nat.cli(["--fp", "-r", "-s" + bad, "16"], 20)
        nat.case()
        if rc == 0:
            nat.fail("bad-seed-accepted", "-s%s" % bad)


# ---------------------------------------------------------------- C10
def c10_nums(nat):
    g = GP(nat)
    jobs = []
    sizes = [8, 9, 10, 12, 13, 16, 17, 20, 24, 29, 32, 33] + ([40, 48, 56, 61] if nat.tier == "thorough" else [40])
    for b in sizes:
        jobs.append((["--fp", "--nums", str(b)], ""))
    for b in (8, 12, 16):
        jobs.append((["--fp", "--nums", "-c", "3", str(b)], ""))
    pre0 = """
numsp(n)={my(c=1);while(!isprime(2^n-c),c+=4);2^n-c};
numsb(p)={my(b=1);while(1,if(b!=2,my(E=ellinit([-3,b],p));if(#E,my(N=ellcard(E));if(isprime(N)&&isprime(2*p+2-N)&&emb(p,N,b),return(b))));b++)};
emb(p,N,b)={if(p==N,return(0));my(k=znorder(Mod(p,N)));k>(N-1)\\100};
base(p,b)={my(x=1);while(kronecker(x^3-3*x+b,p)==-1,x++);my(y=lift(sqrt(Mod(x^3-3*x+b,p))));[x,min(y,if(y,p-y,0))]};
"""
    for r in runs(nat, jobs):
        for c in usable(nat, r) or []:
            w = where(r)
            n = int([a for a in r.args if a.isdigit()][-1])
            s = c.subs[0] if c.subs else None
            if not s or len(c.subs) != 1:
                nat.fail("one-generator", "%s: %s" % (w, c.d))
                continue
            g.add(pre0.replace("\n", " ").replace("; ", ";\n") + c.gp(), [
                ("nums-prime", "numsp(%d)==%d" % (n, c.p), "p is not the largest prime 2^%d-c, c=1 mod 4: %s: %s" % (n, w, c.d)),
                ("nums-a", "%d==%d" % (c.a, c.p - 3), "a is not -3: %s: %s" % (w, c.d)),
                ("nums-b", "numsb(%d)==%d" % (c.p, c.b), "b is not the first that qualifies: %s: %s" % (w, c.d)),
                ("nums-order", "ellcard(E)==%d && isprime(%d) && isprime(%d)" % (c.n, c.n, 2 * c.p + 2 - c.n), "orders of the curve and of its twist: %s: %s" % (w, c.d)),
                ("nums-base", "base(%d,%d)==[%d,%d]" % (c.p, c.b, s.x, s.y), "base point: %s: %s" % (w, c.d)),
                ("nums-base-order", "ellorder(E,%s)==%d && %d==%d" % (c.pt(s), s.o, s.o * (s.cof or 0), c.n), "order and cofactor of the base point: %s: %s" % (w, c.d)),
            ])
    g.go()
