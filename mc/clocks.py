"""The same case with all the clocks of this computer running at another pace (nothing but a transport's time-out depends on a clock)."""
import contextlib
import datetime as dtmod
import sys
import time

from mc import world

# how far the clocks move between two looks at them; the second number is for the clocks somebody can set, the third is where these begin
PACES = [[0.0, 0.0, 1.7e9], [0.3, 0.3, 1.7e9], [2.6, 2.6, 1.7e9], [45.0, 45.0, 1.7e9], [700.0, 700.0, 1.7e9], [90000.0, 90000.0, 1.7e9],
         [0.001, -3600.0, 1.7e9], [0.001, 1e7, 1.7e9], [0.001, 0.001, 10.0], [0.001, 0.001, 3.9e9]]
STEADY = ["monotonic", "perf_counter", "process_time", "thread_time"]
REAL = dtmod.datetime


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL)

    def __subclasscheck__(cls, x):
        return issubclass(x, REAL)


@contextlib.contextmanager
def paced(steady, wall, t0):
    world.import_all()
    looks = [0]

    def look(step, base):
        def f(*a):
            looks[0] += 1
            return base + looks[0] * step
        return f

    def ns(f):
        return lambda *a: int(f() * 1e9)

    mono, wallclock = look(steady, 5000.0), look(wall, t0)

    class Now(REAL, metaclass=_Meta):
        def __new__(cls, *a, **k):
            return REAL(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return REAL.fromtimestamp(max(0, wallclock()) % 4e9, tz)

        @classmethod
        def utcnow(cls):
            return REAL.fromtimestamp(max(0, wallclock()) % 4e9, dtmod.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    new = {n: mono for n in STEADY}
    new["time"] = wallclock
    new.update({n + "_ns": ns(f) for n, f in list(new.items())})
    real = {id(getattr(time, n)): f for n, f in new.items()}
    swaps = [(time, n, f) for n, f in new.items()]
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "elgas" and m is not None:
            for n, v in list(vars(m).items()):
                if v is REAL:
                    swaps.append((m, n, Now))
                elif callable(v) and id(v) in real:
                    swaps.append((m, n, real[id(v)]))
    saved = [(m, n, getattr(m, n)) for m, n, _ in swaps]
    fake = type(sys)("datetime")
    fake.__dict__.update(dtmod.__dict__)
    fake.datetime = Now
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "elgas" and m is not None:
            for n, v in list(vars(m).items()):
                if v is dtmod:
                    swaps.append((m, n, fake))
                    saved.append((m, n, dtmod))
    for m, n, f in swaps:
        setattr(m, n, f)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def timed(run):
    def go(case, ctx):
        pace, inner = case
        with paced(*pace):
            run(inner, ctx)
        ctx.state("pace", pace, inner)
    return go


def at_paces(*gens, paces=PACES):
    def gen():
        for p in paces:
            for g in gens:
                for case in g():
                    yield [p, case]
    return gen
