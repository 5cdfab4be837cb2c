"""C10 factorisation: every random stream gives prime factors and terminates."""
import random

from .. import seams
from ..common import must_reject
from ..core import logint

RULE = (
    "one run = a seeded list of integers (smooth sizes, primes, prime powers, semiprimes, Carmichael numbers, pattern-count shapes) "
    "factored under a seeded random stream whose first draws of each call may be an adversarial burst; non-trivial = a random draw was consumed or a burst was injected"
)
COMPONENTS = {"real": ["ebsdtorch.utils.factorize (all)"], "stub": ["draws of the Python random module (scripted burst, then seeded)"]}

SMALL = [2, 3, 5, 7, 11, 13]
MID = [257, 263, 509, 521, 1009, 4099, 10007, 65537, 99991]
BIG = [104729, 1000003, 1299709, 15485863]
CARM = [75361, 101101, 126217, 294409, 399001, 56052361, 118901521, 172947529, 216821881, 228842209, 1299963601, 2301745249, 9624742921]
MAX_LINES = 20_000_000


def pick(r):
    k = r.choice(["size", "size", "size", "smooth", "prime", "power", "semi", "carm", "rand", "one", "mixed"])
    if k == "size":
        h = r.choice([60, 64, 120, 128, 7, 31, 48])
        return h * r.choice([60, 64, 120, 128, 13, 37]) * logint(r, 1, 5000)
    if k == "smooth":
        n = 1
        for _ in range(r.randint(1, 14)):
            n *= r.choice(SMALL)
        return min(n, 2**48) if n < 2**48 else 2**20
    if k == "prime":
        return r.choice(SMALL + MID + BIG)
    if k == "power":
        return r.choice([257, 263, 509, 521, 1009, 4099]) ** r.choice([2, 2, 3])
    if k == "semi":
        return r.choice(MID + BIG[:1]) * r.choice(MID + BIG[:2])
    if k == "carm":
        return r.choice(CARM)
    if k == "one":
        return r.choice([1, 2, 3, 4, 65535, 65536, 65537])
    if k == "mixed":
        return r.choice(CARM[:6]) * r.choice(SMALL + MID)
    return logint(r, 1, 2**36)


def generate(r, tier):
    ops = []
    for _ in range(r.randint(1, 4)):
        ops.append(
            dict(
                n=pick(r),
                fn=r.choice(["factors", "square"]),
                burst=[r.choice(["zero", "one", "max", "same", "two"]) for _ in range(r.choice([0, 0, 1, 3, 3, 6, 9, 30]))],
            )
        )
    if r.random() < 0.2:
        ops.append(dict(n=r.choice([0, -1, -12, 0]), fn=r.choice(["factors", "square"]), burst=[]))
    return dict(cfg={}, ops=ops)


def is_prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class Stream:
    """The Python random module with a scripted burst at its front."""

    def __init__(self, burst, ctx):
        self.burst, self.i, self.ctx, self.draws, self.last = burst, 0, ctx, 0, 0

    def pick(self, lo, hi, real):
        self.draws += 1
        if self.i < len(self.burst):
            b = self.burst[self.i]
            self.i += 1
            self.ctx.fault("adversarial-draw")
            v = {"zero": lo, "one": min(hi, lo + 1), "two": min(hi, max(lo, 2)), "max": hi, "same": min(hi, max(lo, self.last))}[b]
        else:
            v = real()
        self.last = v
        return v

    def __enter__(self):
        self.saved = (random.randint, random.randrange)
        ri, rr = self.saved
        random.randint = lambda a, b: self.pick(a, b, lambda: ri(a, b))

        def randrange(start, stop=None, step=1):
            if stop is None:
                return self.pick(0, start - 1, lambda: rr(start))
            if step != 1:
                return rr(start, stop, step)
            return self.pick(start, stop - 1, lambda: rr(start, stop))

        random.randrange = randrange
        return self

    def __exit__(self, *a):
        random.randint, random.randrange = self.saved
        return False


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.utils.factorize")
    for op in plan["ops"]:
        n = int(op["n"])
        fn = m.FactorECM if op["fn"] == "factors" else m.nearly_square_factors
        with Stream(op["burst"], ctx) as st, seams.LineFault(max_lines=MAX_LINES) as lf:
            if n < 1:
                must_reject(ctx, lambda: fn(n), "accepted-unfactorable", f"{n}")
                continue
            out = fn(n)
        if st.draws:
            ctx.nontrivial = True
            ctx.probe("random-draw")
        ctx.steps += lf.n
        ctx.log(op["fn"], n, out, st.draws)
        ctx.state(n, op["fn"], st.draws)
        if op["fn"] == "factors":
            prod = 1
            for f in out:
                prod *= f
            ctx.check(prod == n, "product", f"{n} -> {out}")
            ctx.check(all(a <= b for a, b in zip(out, out[1:])), "not-ascending", f"{n} -> {out}")
            bad = [f for f in out if not is_prime(f)]
            ctx.check(not bad, "composite-factor", f"{n} -> {out}: {bad}")
        else:
            a, b = out
            ctx.check(a >= 1 and b >= 1 and a * b == n, "split-product", f"{n} -> {out}")
            p, rest, q = 1, n, 2
            while q * q <= rest and q < 2000000:
                while rest % q == 0:
                    p, rest = q, rest // q
                q += 1
            p = max(p, rest) if rest > 1 else p
            ctx.check(max(a, b) <= p * min(a, b), "split-not-nearly-square", f"{n} -> {out}, largest prime {p}")
