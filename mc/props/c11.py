"""C11 device timestamps convert losslessly and invalid ones are refused."""
import datetime as dt
import itertools

from mc import ref, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.zones import in_zones, zoned

PROP, LEVEL = "C11", "exploration"
RULE = ("every calendar day 2000-2099 x several times of day, every second of several days, all flag combinations, encoded and decoded and "
        "compared with an independent BCD model; every value of each of the six bytes, of each pair of bytes, and of the (day, month) pair in "
        "every year for decoding; non-trivial: a timestamp converted or refused")
ASSUMPTIONS = ["sub-second parts, the time zone and the fold of a time object are not part of the protocol's time: the calendar fields of the object are what is written"]


def utils():
    from elgas import utils as u
    return u


def both(t, u, ctx):
    b = bytes(u.datetime_to_bytes(t))
    if b != ref.time_bytes(t):
        fail("%s encodes as %s" % (t, hx(b)))
    for dst in (False, True):
        for sup in (False, True):
            w = ref.time_bytes(t, dst, sup)
            got = u.bytes_to_datetime(w)
            if tuple(got) != (t, dst, sup) or type(got[1]) is not bool or type(got[2]) is not bool:
                fail("%s (%s, dst %s, supported %s) decodes as %r" % (hx(w), t, dst, sup, got))
    ctx.trace()


def run_days(case, ctx):
    y, m = case
    u = utils()
    for d in range(1, ref.month_days(y, m) + 1):
        for h, mi, s in ((0, 0, 0), (23, 59, 59), (12, 34, 56), (9, 9, 9), (10, 10, 10), (19, 20, 39), (20, 19, 40)):
            both(dt.datetime(y, m, d, h, mi, s), u, ctx)
    ctx.outcome(y, m)


def run_secs(case, ctx):
    day, h = case
    u = utils()
    for m in range(60):
        for s in range(60):
            both(dt.datetime(*day, h, m, s), u, ctx)
    ctx.outcome(tuple(day), h)


def run_refuse_enc(case, ctx):
    y = case
    u = utils()
    for m, d, h in ((1, 1, 0), (12, 31, 23), (6, 15, 12), (2, 28, 1)):
        t = dt.datetime(y, m, d, h, 59, 59)
        try:
            b = u.datetime_to_bytes(t)
        except Exception:
            ctx.trace()
            continue
        fail("%s is not refused but encoded as %s" % (t, hx(b)))
    ctx.outcome(y)


def decode(b, u, ctx):
    exp = ref.parse_time(b)
    ctx.trace()
    try:
        got = u.bytes_to_datetime(b)
    except Exception:
        if exp is not None:
            fail("%s is refused, it is %s" % (hx(b), exp[0]))
        return
    if exp is None:
        fail("%s is no date and time but decodes as %r" % (hx(b), got))
    if tuple(got) != exp:
        fail("%s decodes as %r, it is %r" % (hx(b), got, exp))


def run_byte(case, ctx):
    base, pos = bytearray.fromhex(case[0]), case[1]
    u = utils()
    for v in range(256):
        base[pos] = v
        decode(bytes(base), u, ctx)
    ctx.outcome(case[0], pos)


def run_pair(case, ctx):
    h, a, b, va = case
    base = bytearray.fromhex(h)
    base[a] = va
    u = utils()
    for vb in range(256):
        base[b] = vb
        decode(bytes(base), u, ctx)
    ctx.outcome(h, a, b, va)


def run_daymonth(case, ctx):
    """All day and month bytes which are digits, in every two-digit year."""
    year = case
    u = utils()
    for d in range(256):
        for m in range(0x20):
            decode(bytes([0x59, 0x59, 0x23, d, m, ref.bcd(year)]), u, ctx)
    ctx.outcome(year)


class Stamp(dt.datetime):
    pass


ASPECTS = [("fold", lambda t: t.replace(fold=1)), ("UTC", lambda t: t.replace(tzinfo=dt.timezone.utc)), ("+5:30", lambda t: t.replace(tzinfo=dt.timezone(dt.timedelta(hours=5, minutes=30)))),
           ("-12", lambda t: t.replace(tzinfo=dt.timezone(dt.timedelta(hours=-12)), fold=1)),
           ("half a second", lambda t: t.replace(microsecond=500000)), ("just below the next second", lambda t: t.replace(microsecond=999999)),
           ("subclass", lambda t: Stamp(t.year, t.month, t.day, t.hour, t.minute, t.second))]


def run_aspects(case, ctx):
    """What a time object carries besides its calendar second does not change what is written."""
    y, m = case
    u = utils()
    for d in (1, 15, ref.month_days(y, m)):
        for h, mi, s in ((0, 0, 0), (23, 59, 59), (2, 30, 15), (9, 59, 59)):
            t = dt.datetime(y, m, d, h, mi, s)
            exp = ref.time_bytes(t)
            for name, f in ASPECTS:
                b = bytes(u.datetime_to_bytes(f(t)))
                ctx.trace()
                if b != exp:
                    fail("%s (%s) encodes as %s" % (t, name, hx(b)))
        for name, f in ASPECTS:
            for k in ("wtime", "archt"):
                c = sut.conn(False)
                sut.check_request(k, c.send(sut.request(k, time=f(t))), False, time=t)
                ctx.step()
    ctx.outcome(y, m)


def run_length(case, ctx):
    u = utils()
    b = (ref.time_bytes(sut.T0) * 3)[:case]
    decode(b, u, ctx)
    ctx.outcome(case)


def run_session(case, ctx):
    """The time a session reports, and what a session writes, for all flags and every special byte."""
    y, m = case
    for d in (1, 10, ref.month_days(y, m)):
        for dst in (False, True):
            for sup in (False, True):
                for enc in (False, True):
                    ctx.trace()
                    t = dt.datetime(y, m, d, (d * 7 + m) % 24, (y + m) % 60, (y * 7 + d) % 60)
                    c = sut.conn(enc)
                    w = c.send(sut.request("wtime", time=t))
                    sut.check_request("wtime", w, enc, time=t)
                    c.receive_data(sut.response_wire("wtime", b"\x00", enc))
                    if sut.poll(c)[0] != "answer":
                        fail("write time not acknowledged")
                    c.send(sut.request("time"))
                    p = ref.time_bytes(t, dst, sup) + b"\x00\x01\x02"
                    c.receive_data(sut.response_wire("time", p, enc))
                    r = sut.poll(c)
                    if r[0] != "answer":
                        fail("device time %s not delivered: %r" % (hx(p), r))
                    sut.check_answer("time", p, r[1])
                    ctx.step(4)
    ctx.outcome(y, m)


def families(tier):
    q = tier == "quick"

    def months():
        for y in range(2000, 2100):
            for m in range(1, 13):
                yield [y, m]

    def secs():
        days = [[2000, 1, 1], [2024, 2, 29], [2099, 12, 31]] if q else \
            [[y, m, d] for y in (2000, 2009, 2024, 2099) for m, d in ((1, 1), (2, 28), (2, 29), (10, 31), (12, 31)) if d <= ref.month_days(y, m)]
        for d in days:
            for h in range(24):
                yield [d, h]

    def years():
        for y in list(range(1, 2000)) + list(range(2100, 10000)):
            yield y

    bases = [ref.time_bytes(dt.datetime(2024, 2, 29, 23, 59, 58)).hex(), ref.time_bytes(dt.datetime(2000, 1, 1)).hex(),
             ref.time_bytes(dt.datetime(2031, 12, 31, 9, 9, 9), True, True).hex(), ref.time_bytes(dt.datetime(2099, 4, 30, 19, 19, 19), True).hex()]

    def byte():
        for b in bases:
            for pos in range(6):
                yield [b, pos]

    def pair():
        for h in bases[:2] if q else bases:
            for a, b in itertools.combinations(range(6), 2):
                for va in range(256):
                    yield [h, a, b, va]

    def dstdays():
        for d in ([2024, 3, 31], [2024, 10, 27], [2024, 3, 10], [2024, 11, 3], [2024, 9, 29], [2024, 4, 7], [2000, 1, 1], [2038, 1, 19], [2099, 12, 31]):
            for h in range(24):
                yield [0, d, h]

    def zmonths():
        for y in (2000, 2024, 2037, 2038, 2099) if q else range(2000, 2100):
            for m in range(1, 13):
                yield [1, y, m]
                yield [2, y, m]

    def run_zone(case, ctx):
        (run_secs, run_days, run_session)[case[0]](case[1:], ctx)

    return [
        Family("zones", in_zones(zmonths, dstdays), zoned(run_zone), "days, every second of days with clock changes, and sessions under seven local time zones"),
        Family("clocks", at_paces(months), timed(run_days), "every day 2000-2099, the clocks of this computer running at ten paces"),
        Family("clocks2", at_paces(lambda: ([y, m] for y in range(2000, 2100) for m in (2, 12))), timed(run_session), "two months of every year through a session, the clocks running at ten paces"),
        Family("aspects", months, run_aspects, "times with a time zone, in a fold, with fractions of a second, of a subclass"),
        Family("days", months, run_days, "every day 2000-2099"),
        Family("refuse", years, run_refuse_enc, "every year outside"),
        Family("length", lambda: iter([0, 1, 2, 3, 4, 5, 7, 8, 12]), run_length, "wrong lengths"),
        Family("bytes", byte, run_byte, "every value of each byte"),
        Family("session", months, run_session, "through a session"),
        Family("seconds", secs, run_secs, "every second of selected days"),
        Family("pairs", pair, run_pair, "every value of each pair of bytes"),
        Family("daymonth", lambda: iter(range(100)), run_daymonth, "every day/month byte in every year"),
    ]
