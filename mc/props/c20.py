"""C20 device call-in messages decode field by field."""
import datetime as dt
import itertools

from mc import ref
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.twins import twins
from mc.zones import in_zones, zoned
from mc.layouts import text

PROP, LEVEL = "C20", "exploration"
RULE = ("a case is a base message x one byte position (all 256 values), a pair of positions, a field x boundary values, or a truncation; each "
        "message is decoded from the bare payload and from the complete stuffed frame and every decoded field is compared with a "
        "reference layout; a state is (base, field, refused or value class)")
ASSUMPTIONS = ["SIM and modem numbers are compared as numbers (the existing tests fix that leading zeros are dropped); digits beyond 9 are refused",
               "bytes behind the last field are not part of the claim"]

# name, size, kind
FIELDS = [("-length", 2, "u"), ("version", 1, "u"), ("guid", 16, "raw"), ("station_id", 17, "text"), ("sim_card_id", 10, "bcd"), ("modem_id", 8, "bcd"),
          ("protocol", 1, "protocol"), ("address_1", 2, "u"), ("address_2", 1, "u"), ("signal_strength", 1, "u"), ("connections", 4, "u"),
          ("last_connection_time", 4, "time"), ("connection_errors", 4, "u"), ("last_connection_error_time", 4, "time"), ("resets", 4, "u"),
          ("last_reset_time", 4, "time"), ("tcp_data", 4, "u"), ("all_data", 4, "u"), ("serial_number", 4, "ustr"), ("ip_address", 4, "ip"),
          ("last_modem_error_time", 4, "time"), ("last_modem_error", 1, "u"), ("modem_battery_capacity", 2, "u"), ("modem_battery_voltage", 2, "u"),
          ("firmware_version", 33, "text")]
SIZE = sum(f[1] for f in FIELDS)
OFF = dict(zip([f[0] for f in FIELDS], itertools.accumulate([0] + [f[1] for f in FIELDS])))
BASE_DATE = dt.datetime(2000, 1, 1)


def expect(p):
    """{field: value}, or None when the message must be refused."""
    if len(p) < SIZE:
        return None
    out, o = {}, 0
    for name, n, kind in FIELDS:
        raw = bytes(p[o:o + n])
        o += n
        if kind == "u":
            v = int.from_bytes(raw, "little")
        elif kind == "ustr":
            v = str(int.from_bytes(raw, "little"))
        elif kind == "raw":
            v = raw
        elif kind == "text":
            v = text(raw)
        elif kind == "bcd":
            n10 = 0
            for b in raw:
                if b >> 4 > 9 or b & 15 > 9:
                    return None
                n10 = n10 * 100 + (b >> 4) * 10 + (b & 15)
            v = str(n10)
        elif kind == "time":
            v = BASE_DATE + dt.timedelta(seconds=int.from_bytes(raw, "little"))
        elif kind == "ip":
            v = "%d.%d.%d.%d" % tuple(raw)
        elif kind == "protocol":
            if raw[0] > 3:
                return None
            v = raw[0]
        if name[0] != "-":
            out[name] = v
    return out


def base(k):
    """Every field different from every other and from zero."""
    out = bytearray()
    for i, (name, n, kind) in enumerate(FIELDS):
        if name == "-length":
            out += (SIZE).to_bytes(2, "little")
        elif kind == "bcd":
            out += bytes(((x * 7 + i + k) % 9 + 1) * 16 + (x * 3 + i + k) % 10 for x in range(n))
        elif kind == "text":
            t = [b"0000000000000001", b"a b\x00c ", bytes(range(0x21, 0x61))][k % 3][:n - 1]
            out += t + bytes(n - len(t))
        elif kind == "protocol":
            out += bytes([(k + 1) % 4])
        elif kind == "time":
            out += ((i * 0x01020304 + k * 86399) & 0x7FFFFFFF | 1).to_bytes(4, "little")
        else:
            out += bytes((i * 16 + x * 5 + 1 + k * 101) & 255 for x in range(n))
    assert len(out) == SIZE
    return out


def decode(payload):
    from elgas import application, frames, utils
    out = []
    w = ref.wire(ref.REQUEST, 0x87, bytes(payload), dst=(0, 0), src=(0x1B0D, 0x8D))
    for how in ("payload", "frame"):
        try:
            if how == "payload":
                out.append((how, application.CallRequest.from_bytes(bytes(payload))))
            else:
                f = frames.Request.from_bytes(utils.return_characters(w))
                if f.service != 0x87:
                    fail("call-in frame is taken for service %r" % (f.service,))
                if (f.source_address_1, f.source_address_2) != (0x1B0D, 0x8D):
                    fail("source address of the call-in frame is %r %r" % (f.source_address_1, f.source_address_2))
                out.append((how, application.CallRequest.from_bytes(f.data)))
        except (ValueError, IndexError, OverflowError, TypeError, KeyError) as e:
            out.append((how, e))
    return out


def check(p, ctx, tag):
    exp = expect(p)
    for how, got in decode(p):
        ctx.step()
        if exp is None:
            if not isinstance(got, Exception):
                fail("%s (%s): %s should be refused, decodes to %r" % (tag, how, hx(p), got))
            continue
        if isinstance(got, Exception):
            fail("%s (%s): %s is refused: %r" % (tag, how, hx(p), got))
        for name, v in exp.items():
            g = getattr(got, name)
            if isinstance(v, bytes):
                g = bytes(g)
            if g != v:
                fail("%s (%s): %s is %r, should be %r, in %s" % (tag, how, name, g, v, hx(p)))
    return exp


def run_bytes(case, ctx):
    k, pos = case
    p = base(k)
    for v in range(256):
        ctx.trace()
        p[pos] = v
        e = check(p, ctx, "byte %d" % pos)
        ctx.state(k, pos, e is None)
    ctx.outcome(k, pos)


def run_field(case, ctx):
    """Boundary values of one field."""
    k, i = case
    name, n, kind = FIELDS[i]
    o = OFF[name]
    vals = [bytes(n), b"\xff" * n, b"\x99" * n, b"\x01" + bytes(n - 1), bytes(n - 1) + b"\x01", b"\x0d" * n, b"\x1b" * n, b"\x8d" * n, b" " * n, b"x" * n,
            b"\x00" + b"y" * (n - 1), (b"\x00a" * n)[:n], (b"a\x00" * n)[:n], (b" \t" * n)[:n], b"z" * (n - 1) + b"\x00", b"\xe9" * (n - 1) + b"\x00"]
    vals += [(1 << b).to_bytes(n, "little") for b in range(8 * n)] + [((1 << b) - 1).to_bytes(n, "little") for b in range(8 * n)]
    if kind == "time":
        vals += [int((dt.datetime(y, m, 1) - BASE_DATE).total_seconds() - d).to_bytes(4, "little") for y in range(2001, 2136) for m in (1, 3, 12) for d in (0, 1)]
    p = base(k)
    for v in vals:
        ctx.trace()
        p[o:o + n] = v
        e = check(p, ctx, name)
        ctx.state(k, name, e is None)
    ctx.outcome(k, name)


def run_pairs(case, ctx):
    """Two bytes of one field, all pairs of values (in blocks)."""
    k, o1, o2, hi = case
    p = base(k)
    p[o1] = hi
    for v in range(256):
        ctx.trace()
        p[o2] = v
        check(p, ctx, "bytes %d and %d" % (o1, o2))
    ctx.state(o1, o2, hi)
    ctx.outcome(str(case))


def run_combos(case, ctx):
    """Whole fields set to values of their own at once: two of them, or all but two."""
    bk, i, j = case
    start = {"plain": base(1), "zero": bytearray(SIZE), "full": base(2)}[bk]
    if bk == "full":
        for name, n, kind in FIELDS:
            start[OFF[name]:OFF[name] + n] = b"\x99" * n if kind == "bcd" else b"\x03" if kind == "protocol" else b"\xff" * n

    def values(f):
        name, n, kind = f
        top = b"\x99" * n if kind == "bcd" else b"\x03" if kind == "protocol" else b"\xff" * n
        return [bytes(n), b"\x01" + bytes(n - 1), top, bytes(base(4)[OFF[name]:OFF[name] + n])]

    for a in values(FIELDS[i]):
        for b in values(FIELDS[j]):
            ctx.trace()
            p = bytearray(start)
            p[OFF[FIELDS[i][0]]:OFF[FIELDS[i][0]] + len(a)] = a
            p[OFF[FIELDS[j][0]]:OFF[FIELDS[j][0]] + len(b)] = b
            e = check(p, ctx, "fields %s and %s, the rest %s" % (FIELDS[i][0], FIELDS[j][0], bk))
            ctx.state(bk, i, j, e is None)
    ctx.outcome(bk, i, j)


def run_twins(case, ctx):
    """Messages which are easily taken for each other, in turns."""
    k, part, parts = case
    a = base(k)
    for what, b in twins(a, bits=False)[part::parts]:
        ctx.trace()
        check(a, ctx, "message before its twin (%s)" % what)
        e = check(b, ctx, "message after its twin (%s)" % what)
        ctx.state("twin", k, what, e is None)
    ctx.outcome(str(case))


def run_cut(case, ctx):
    k, n = case
    p = base(k)[:n]
    check(p, ctx, "cut after %d bytes" % n)
    ctx.state("cut", k, n)
    ctx.outcome(k, n)


def run_order(case, ctx):
    """Decoding several messages: earlier ones stay as they were."""
    from elgas import application
    a, b = base(case[0]), base(case[1])
    x = application.CallRequest.from_bytes(bytes(a))
    application.CallRequest.from_bytes(bytes(b))
    for name, v in expect(a).items():
        if getattr(x, name) != v:
            fail("decoding another message changes %s" % name)
    buf = bytearray(a)
    x = application.CallRequest.from_bytes(buf)
    if bytes(buf) != bytes(a):
        fail("decoding consumes the caller's buffer")
    buf[:] = bytes(len(buf))
    for name, v in expect(a).items():
        if getattr(x, name) != v:
            fail("reusing the receive buffer changes %s" % name)
    ctx.step(4)
    ctx.state("order", *case)
    ctx.outcome(*case)


def families(tier):
    q = tier == "quick"

    def bytes_():
        for k in range(3 if q else 12):
            for pos in range(SIZE):
                yield [k, pos]

    def field():
        for k in range(6 if q else 24):
            for i in range(len(FIELDS)):
                yield [k, i]

    def pairs():
        for name, n, kind in FIELDS:
            if n > 1 and (not q or kind in ("u", "time")):
                for d in range(n - 1 if not q or n == 2 else 1):
                    for hi in range(0, 256, 16 if q else 1):
                        yield [1, OFF[name] + d, OFF[name] + d + 1, hi]

    def twin():
        for k in range(3):
            for part in range(8):
                yield [k, part, 8]

    def cut():
        for k in range(3):
            for n in range(SIZE + 1):
                yield [k, n]

    def order():
        for a in range(6):
            for b in range(6):
                yield [a, b]

    def ztimes():
        for k in range(2):
            for i, f in enumerate(FIELDS):
                if f[2] == "time":
                    yield [k, i]

    def combos():
        for bk in ("plain", "zero", "full"):
            for i in range(len(FIELDS)):
                for j in range(i, len(FIELDS)):
                    yield [bk, i, j]

    return [
        Family("combos", combos, run_combos, "all pairs of fields at zero, one, full and ordinary values, the rest ordinary, zero or full"),
        Family("zones", in_zones(ztimes), zoned(run_field), "the four timestamps under seven local time zones"),
        Family("clocks", at_paces(lambda: ([k, i] for k in range(2) for i in range(len(FIELDS)))), timed(run_field), "every field, the clocks of this computer running at ten paces"),
        Family("bytes", bytes_, run_bytes, "every value of every byte"),
        Family("field", field, run_field, "every bit, all-ones prefixes, text and time boundaries of every field"),
        Family("pairs", pairs, run_pairs, "pairs of neighbouring bytes of one field"),
        Family("twins", twin, run_twins, "messages that agree in length and in a digest or sum, in turns"),
        Family("cut", cut, run_cut, "every truncation"),
        Family("order", order, run_order, "several messages, reused buffers"),
    ]
