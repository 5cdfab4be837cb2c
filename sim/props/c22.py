"""C22 progress display: every item once, in order, whatever clock, stream, consumer and source do."""
import io
import re
import sys

from .. import seams
from ..core import SimFault, Violation

RULE = (
    "one run = seeded progress bars over seeded sources with a scripted clock (jumps back and forth, stalls, time passing in the consumer), scripted streams (encodings, failing writes, closed), consumers that stop early "
    "or interleave several bars, sources that fail; delivered items, laziness, errors and written text are compared with a list model; non-trivial = a clock jump, a stream or source fault, or an early stop"
)
MODULES = ["ebsdtorch.utils.progressbar"]
COMPONENTS = {"real": ["ebsdtorch.utils.progressbar"], "stub": ["clock", "output stream", "source iterable", "consumer"]}


def generate(r, tier):
    bars = []
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice([0, 1, 2, 3, 7, 20, 61, 150])
        bars.append(
            dict(
                n=n, prefix=r.choice(["", "x", "INDEXING DICTIONARY", "Über ", "a{}b%s"]), pmin=r.choice([15, 0, 3, 40]), size=r.choice([60, 1, 10, 7]), source=r.choice(["list", "range", "tuple", "lazy", "lazy"]),
                stop=r.choice([None, None, None, r.randrange(n + 1)]), how=r.choice(["break", "close", "throw", "raise"]), fail=r.choice([None, None, None, r.randrange(n + 1)]), stream=r.choice(["text", "text", "text", "ascii", "cp1252", "default", "broken", "nofileno"]),
                broken_at=r.randrange(60), item=r.choice(["int", "none", "same"]),
            )
        )
    clock = r.choice(["steady", "steady", "frozen", "jumps", "back", "wild"])
    script = [pick(r, clock) for _ in range(r.choice([5, 50, 400]))]
    work = [r.choice([0.0, 0.001, 0.5, 3.0, 59.99, 100.0, 4000.0]) for _ in range(20)]
    return dict(cfg=dict(clock=clock, start=r.choice([0.0, 1000.0, 1.7e9])), script=script, work=work, bars=bars, order=[r.randrange(8) for _ in range(30)])


def pick(r, clock):
    if clock in ("steady", "frozen"):
        return 0.0
    if clock == "jumps":
        return r.choice([0.0, 0.0, 0.01, 3600.0, -3600.0])
    if clock == "back":
        return r.choice([-1.0, -0.001, -1e-7])
    return r.choice([0.0, 1e-9, -1e-9, -1e-8, 1e9, -1e9, 0.1, -5.0])


class Out:
    """a text stream that counts what is written and may fail"""

    def __init__(self, encoding=None, broken_at=None):
        self.text, self.encoding, self.broken_at, self.calls, self.fired = [], encoding, broken_at, 0, False
        if encoding is None:
            del self.encoding

    def write(self, s):
        self.calls += 1
        if self.broken_at is not None and self.calls > self.broken_at:
            self.fired = True
            raise BrokenPipeError(32, "simulated-fault: Broken pipe")
        if getattr(self, "encoding", None):
            s.encode(self.encoding)
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


class Source:
    """knows its length, delivers lazily, may fail"""

    def __init__(self, items, fail):
        self.items, self.fail, self.taken, self.iters = items, fail, 0, 0

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        self.iters += 1
        for i, x in enumerate(self.items):
            if self.fail == i:
                raise SimFault("simulated-fault: source failed")
            self.taken += 1
            yield x
        if self.fail == len(self.items):
            raise SimFault("simulated-fault: source failed")


class Bar:
    def __init__(self, ctx, m, spec, k):
        self.ctx, self.spec, self.k = ctx, spec, k
        n = spec["n"]
        same = object()
        items = [{"int": i * 7 + k, "none": None, "same": same}[spec["item"]] for i in range(n)]
        self.want = items
        self.src = Source(items, spec["fail"] if spec["source"] == "lazy" else None)
        it = {"list": list(items), "tuple": tuple(items), "range": range(n), "lazy": self.src}[spec["source"]]
        if spec["source"] == "range":
            self.want = list(range(n))
        s = spec["stream"]
        self.out = Out({"ascii": "ascii", "cp1252": "cp1252", "text": "utf-8"}.get(s), spec["broken_at"] if s == "broken" else None)
        kw = dict(prefix=spec["prefix"] if s not in ("ascii",) else spec["prefix"].encode("ascii", "ignore").decode(), prefix_min_length=spec["pmin"], size=spec["size"])
        if s != "default":
            kw["out"] = self.out
        self.start = self.made = seams.CLOCK.now
        self.gen = iter(m.progressbar(it, **kw))
        self.got, self.state, self.error = [], "open", None
        self.when = []

    def step(self):
        """take one item; the checks that hold after each one"""
        ctx, spec = self.ctx, self.spec
        if not self.got:
            self.start = seams.CLOCK.now
        try:
            x = next(self.gen)
        except StopIteration:
            self.state = "ended"
            self.finish()
            return
        except SimFault as e:
            self.state, self.error = "failed", e
            ctx.fault("source-failure")
            ctx.check(self.src.fail is not None and self.src.taken == self.src.fail and len(self.got) == self.src.fail, "source-error-misplaced", f"after {len(self.got)} items")
            self.over()
            return
        except BrokenPipeError as e:
            self.state, self.error = "failed", e
            ctx.check(self.out.fired, "stream-error-invented", "")
            ctx.fault("stream-failure")
            self.over()
            return
        self.got.append(x)
        n = len(self.got)
        ctx.check(n <= len(self.want) and (x is self.want[n - 1] or x == self.want[n - 1]), "wrong-item", lambda: f"item {n}: {x!r}")
        if spec["source"] == "lazy":
            ctx.check(self.src.taken == n and self.src.iters == 1, "not-lazy", lambda: f"{self.src.taken} items taken from the source for {n} asked for")

    def over(self):
        try:
            x = next(self.gen)
        except StopIteration:
            return
        self.ctx.fail("continues-after-error", f"{x!r}")

    def finish(self):
        ctx = self.ctx
        ctx.check(len(self.got) == len(self.want), "items-lost", lambda: f"{len(self.got)} of {len(self.want)} items")
        ctx.check(self.src.fail is None, "source-error-lost", "")
        text = "".join(self.out.text)
        n = len(self.want)
        if self.spec["stream"] == "default":
            return
        if n and not self.out.fired:
            ctx.check(f"{n}/{n}" in text, "not-complete", lambda: f"{text[-120:]!r}")
        self.over()

    def shown(self):
        """what the latest line says about the finished items"""
        lines = [x for x in "".join(self.out.text).split("\r") if x.strip()]
        if lines:
            return re.search(r"(\d+)/(\d+) (?:(\d+):)?(\d\d\.\d)<(?:(\d+):)?(\d\d\.\d)", lines[-1])

    def drawn(self, j, el):
        """the picture of the latest line: filled share, percentage, speed"""
        ctx, n, size = self.ctx, len(self.want), self.spec["size"]
        line = [x for x in "".join(self.out.text).split("\r") if x.strip()][-1]
        bar = re.search(r"\[([█#]*)(\.*)\]\s*(\d+\.\d)%", line)
        if bar:
            ctx.check(len(bar[1]) + len(bar[2]) == size and abs(len(bar[1]) - size * j / n) <= 1, "wrong-bar-shown", lambda: f"{line!r} after {j} of {n}")
            ctx.check(abs(float(bar[3]) - 100 * j / n) <= 0.11, "wrong-share-shown", lambda: f"{line!r} after {j} of {n}")
        v = re.search(r"(\d+\.\d) (itr/s|s/itr)", line)
        if v and el > 1e-3:
            per = el / j
            x = 1 / per if v[2] == "itr/s" else per
            ctx.check(abs(float(v[1]) - x) <= 0.06 + 1e-3 * x, "wrong-speed-shown", lambda: f"{line!r} with {el:.2f} s for {j} items")
            ctx.probe("speeds-shown")
        p = self.spec["prefix"]
        ctx.check(line.lstrip("\n").startswith(p + " " * max(0, min(3, self.spec["pmin"] - len(p)))), "wrong-prefix-shown", lambda: f"{line!r} for prefix {p!r}")

    def stop(self):
        ctx, how = self.ctx, self.spec["how"]
        ctx.fault("early-stop")
        self.state = "stopped"
        n = self.src.taken
        if how in ("close", "break"):
            self.gen.close()
        else:
            try:
                self.gen.throw(KeyError("consumer"))
            except KeyError:
                pass
            except BrokenPipeError:
                ctx.check(self.out.fired, "stream-error-invented", "")
            except StopIteration:
                ctx.fail("consumer-error-swallowed", "")
            else:
                ctx.fail("consumer-error-swallowed", "")
        ctx.check(self.src.taken == n, "not-lazy", "took items after being stopped")
        self.over()


def execute(plan, ctx):
    m = seams.repo("ebsdtorch.utils.progressbar")
    clock = plan["cfg"]["clock"]
    seams.CLOCK.start([] if clock in ("steady", "frozen") else plan["script"] or [0.0], plan["cfg"]["start"])
    if clock not in ("steady", "frozen"):
        ctx.fault("clock-jump")
    keep, sys.stdout = sys.stdout, Out("utf-8")
    keep_err, sys.stderr = sys.stderr, Out("utf-8")
    done = 0.0
    try:
        with seams.LineFault(max_lines=200000):
            bars = [Bar(ctx, m, s, k) for k, s in enumerate(plan["bars"])]
            for b in bars:
                if b.spec["source"] == "lazy":
                    ctx.check(b.src.taken == 0, "not-lazy", "items taken before the first was asked for")
            order = plan["order"] or [0]
            i = w = 0
            while any(b.state == "open" for b in bars):
                alive = [b for b in bars if b.state == "open"]
                b = alive[order[i % len(order)] % len(alive)]
                i += 1
                stop = b.spec["stop"]
                if stop is not None and len(b.got) >= stop and len(b.got) > 0:
                    b.stop()
                    continue
                before = seams.CLOCK.now
                b.step()
                if clock == "steady" and b.state == "open" and len(b.got) > 1 and b.spec["stream"] in ("text", "nofileno"):
                    s = b.shown()
                    if s and b.made == b.start:
                        j = len(b.got) - 1
                        el = before - b.start
                        e = 60 * int(s[3] or 0) + float(s[4])
                        r = 60 * int(s[5] or 0) + float(s[6])
                        left = el / j * (len(b.want) - j)
                        ctx.check(int(s[1]) == j and int(s[2]) == len(b.want), "wrong-count-shown", lambda: f"{s[0]!r} after {j}")
                        ctx.check(abs(e - el) < 0.2 + 1e-6 * el and abs(r - left) < 0.2 + 1e-6 * left, "wrong-time-shown", lambda: f"{s[0]!r} with {el:.2f} s elapsed and {left:.2f} s left")
                        ctx.probe("times-shown")
                        b.drawn(j, el)
                if plan["work"] and clock in ("steady", "jumps", "wild"):
                    dt = plan["work"][w % len(plan["work"])]
                    w += 1
                    seams.CLOCK.now += dt
                    done += dt
        named = [b for b in bars if b.spec["stream"] != "default"]
        if len(named) == len(bars):
            ctx.check(not sys.stdout.text and not sys.stderr.text, "wrong-stream", lambda: f"{''.join(sys.stdout.text + sys.stderr.text)[:80]!r}")
        for b in bars:
            ctx.state(b.state, b.spec["source"], b.spec["stream"], clock, min(b.spec["n"], 4), b.spec["how"] if b.state == "stopped" else "")
            ctx.log(b.k, b.state, len(b.got), len(b.out.text))
    finally:
        sys.stdout, sys.stderr = keep, keep_err
        seams.CLOCK.stop()
    ctx.sim_time = done
    if any(len(b.got) > 1 for b in bars) and len(bars) > 1:
        ctx.nontrivial = True
