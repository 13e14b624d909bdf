"""C10 responses decode to exactly what the device sent."""
import datetime as dt
import itertools

from mc import ref, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.twins import twins
from mc.zones import in_zones, zoned

PROP, LEVEL = "C10", "exploration"
RULE = ("every response kind with every byte value at every payload position, every data length up to the bound and the product of special "
        "bytes at field borders, decoded directly and through a complete session; every field is compared with an independent decoder; "
        "payloads which are no valid encoding must be refused; non-trivial: a decoded (or refused) payload")
ASSUMPTIONS = ["a read-time payload ends in two CRC bytes, so it has at least nine bytes", "instantaneous values carry at least the fixed tail of 19 bytes"]

SPECIAL = [0x00, 0x01, 0x02, 0x0D, 0x1B, 0x7F, 0x80, 0x8D, 0xFE, 0xFF]
MINLEN = {"values": 25, "time": 9, "wtime": 0, "params": 5, "arch": 5, "archt": 5}


def cls(kind):
    from elgas import application
    return getattr(application, ref.RESPONSE_CLASS[kind])


def check_payload(kind, payload, ctx, session=None):
    exp = ref.decode_response(kind, payload)
    ctx.trace()
    if session is None:
        for conv in (bytes, bytearray):
            try:
                got = cls(kind).from_bytes(conv(payload))
            except Exception:
                if exp is not None:
                    fail("%s payload %s is refused" % (kind, hx(payload)))
            else:
                sut.check_answer(kind, payload, got, "%s payload" % kind)
        return
    if len(payload) == 1 and payload[0]:
        return
    c = sut.conn(session)
    c.send(sut.request(kind))
    c.receive_data(sut.response_wire(kind, payload, session))
    r = sut.poll(c)
    ctx.step(2)
    if exp is None:
        if r[0] == "answer":
            fail("%s: undecodable payload %s delivered as %r" % (kind, hx(payload), r[1]))
    elif r[0] != "answer":
        fail("%s payload %s not delivered: %s %r" % (kind, hx(payload), r[0], r[1]))
    else:
        sut.check_answer(kind, payload, r[1], "session %s" % kind)


def base(kind, n, fill):
    """A valid payload with n bytes of data part."""
    data = bytes((i * 5 + 1) & 255 if fill is None else fill for i in range(n))
    if kind == "values":
        return sut.TIMEB + data + bytes(range(1, 20))
    if kind == "time":
        return sut.TIMEB + b"\x01" + data + b"\xc1\xc2"
    if kind == "wtime":
        return data
    if kind == "params":
        return b"\x11\x22\x33\x44\x01" + data
    return b"\x04\x0a\x0b\x0c\x0d" + data


def run_bytes(case, ctx):
    kind, n, pos, session = case
    p = bytearray(base(kind, n, None))
    if pos >= len(p):
        return
    for b in range(256):
        p[pos] = b
        check_payload(kind, bytes(p), ctx, session)
    ctx.outcome(kind, n, pos, session)


def run_pairs(case, ctx):
    kind, n, a, b = case
    p = bytearray(base(kind, n, None))
    for x, y in itertools.product(SPECIAL, repeat=2):
        p[a], p[b] = x, y
        check_payload(kind, bytes(p), ctx)
    ctx.outcome(kind, n, a, b)


PARTS = {"values": [6, None, 1, 8, 8, 2], "time": [6, 1, None, 2], "params": [2, 2, 1, None], "arch": [1, 4, None], "archt": [1, 4, None], "wtime": [None]}


def run_fields(case, ctx):
    """Whole fields at zero, one, full and ordinary values: the complete product."""
    kind, n, session = case
    times = [sut.TIMEB, bytes([0, 1, 1, 0, 0, 0]), bytes([0x99, 0x12, 0x31, 0x23, 0x59, 0x59]), bytes(6)]
    choices = []
    for size in PARTS[kind]:
        m = n if size is None else size
        choices.append(times if size == 6 else [bytes(m)] + ([b"\x01" + bytes(m - 1), b"\xff" * m, bytes(range(0x41, 0x41 + m))] if m else []))
    for parts in itertools.product(*choices):
        check_payload(kind, b"".join(parts), ctx, session)
    ctx.outcome(kind, n, session)


def run_cross(case, ctx):
    """One byte runs over all values while another has each of a few."""
    kind, n, a, session = case
    p = base(kind, n, None)
    spots = [i for i in range(len(p)) if i != a]
    for b in spots:
        for y in (0x00, 0x01, 0x80, 0xFF):
            x = bytearray(p)
            x[b] = y
            for v in range(256):
                x[a] = v
                check_payload(kind, bytes(x), ctx, session)
    ctx.outcome(kind, n, a, session)


def run_archives(case, ctx):
    """Archive numbers with record ids."""
    kind, archive, session = case
    B = (0x00, 0x01, 0x0D, 0x7F, 0x80, 0xFF)
    for n in (0, 1, 5):
        tail = bytes(range(0x61, 0x61 + n))
        for t in itertools.product(B, repeat=4):
            check_payload(kind, bytes([archive]) + bytes(t) + tail, ctx, session)
    ctx.outcome(kind, archive, session)


def run_allpairs(case, ctx):
    """Both bytes of adjacent positions run over all 65536 combinations."""
    kind, n, a = case
    p = bytearray(base(kind, n, None))
    for x in range(256):
        for y in range(256):
            p[a], p[a + 1] = x, y
            check_payload(kind, bytes(p), ctx)
    ctx.outcome(kind, n, a)


def run_len(case, ctx):
    kind, n, session = case
    for fill in (None, 0, 0x0D, 0x1B, 0x8D, 0xFF):
        check_payload(kind, base(kind, n, fill), ctx, session)
        # marks at both ends of the data part: nothing lost or shifted there
        p = base(kind, n, fill)
        for i in range(min(4, len(p))):
            q = bytearray(p)
            q[-1 - i] ^= 0xA5
            check_payload(kind, bytes(q), ctx, session)
    ctx.outcome(kind, n, session)


def run_short(case, ctx):
    """Payloads shorter than the fixed part of the kind never decode to something."""
    kind, n = case
    for fill in (0, 1, 0x05):
        p = base(kind, 0, None)[:n] if fill == 0 else bytes([fill]) * n
        if n != 1:
            check_payload(kind, p, ctx, False)
            check_payload(kind, p, ctx, True)
    ctx.outcome(kind, n)


def run_seq(case, ctx):
    """Several answers on one session: none carries anything of another."""
    kinds, sizes, enc = case
    c = sut.conn(enc)
    got = []
    for k, n in zip(kinds, sizes):
        p = base(k, n, n & 255)
        c.send(sut.request(k))
        c.receive_data(sut.response_wire(k, p, enc))
        r = sut.poll(c)
        if r[0] != "answer":
            fail("sequence %s: %s %r" % (kinds, r[0], r[1]))
        got.append((k, p, r[1]))
        ctx.step(2)
        for kk, pp, g in got:
            sut.check_answer(kk, pp, g, "sequence %s" % kinds)
    ctx.trace()
    ctx.outcome(tuple(kinds), tuple(sizes), enc)


def run_twins(case, ctx):
    """Two answers that are easily taken for each other, in turns, directly and on one session."""
    kind, n, enc, part, parts = case
    a = base(kind, n, None)
    if kind == "time":
        a = a[:-2] + b"\x35\x36"
    c = sut.conn(enc)

    def ask(p, what):
        exp = ref.decode_response(kind, p)
        if exp is None or len(p) == 1:
            return
        c.send(sut.request(kind))
        c.receive_data(sut.response_wire(kind, p, enc))
        r = sut.poll(c)
        ctx.step(2)
        if r[0] != "answer":
            fail("%s: %s %s is not delivered: %s %r" % (what, kind, hx(p), r[0], r[1]))
        sut.check_answer(kind, p, r[1], what)
        sut.check_answer(kind, p, cls(kind).from_bytes(p), what + ", directly")

    ask(a, "first answer")
    for what, b in twins(a)[part::parts]:
        ctx.trace()
        ask(b, "answer after its twin (%s)" % what)
        ask(a, "answer after its twin and again (%s)" % what)
        ctx.state(kind, n, enc, what)
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def twin():
        for kind in ref.KINDS:
            for n in (0, 6, 24) if q else (0, 3, 6, 16, 24, 60):
                for enc in (False, True):
                    for part in range(4):
                        yield [kind, n, enc, part, 4]

    def bytes_():
        for kind in ref.KINDS:
            for n in (0, 1, 7) if q else (0, 1, 2, 3, 7, 16, 40):
                for pos in range(len(base(kind, n, None))):
                    for s in (None, False, True):
                        yield [kind, n, pos, s]

    def pairs():
        for kind in ref.KINDS:
            for n in (2, 5):
                L = len(base(kind, n, None))
                for a, b in itertools.combinations(range(L), 2):
                    yield [kind, n, a, b]

    def allpairs():
        for kind in ("time", "values", "params", "arch", "archt"):
            L = len(base(kind, 3, None))
            for a in range(min(6, L - 1)) if q else range(L - 1):
                if kind != "values" or a < 5 or not q:
                    yield [kind, 3, a]

    def cross():
        for kind in ref.KINDS:
            for n in (1,) if q else (0, 1, 4):
                L = len(base(kind, n, None))
                for a in range(L):
                    if not q or kind != "values" or a in (5, 6, 7, 8, 15, 16, 23, 24, 25):
                        yield [kind, n, a, None]
                if not q and kind != "values":
                    for a in range(L):
                        yield [kind, n, a, False]

    def archives():
        for kind in ("arch", "archt"):
            for a in range(14 if q else 256):
                for s in (None, False, True):
                    yield [kind, a, s]

    def lens():
        top = 1100 if q else 4200
        for kind in ref.KINDS:
            for n in range(0, top):
                yield [kind, n, None]
            for n in range(0, 300 if q else top, 1):
                for s in (False, True):
                    yield [kind, n, s]

    def big():
        for kind in ref.KINDS:
            for n in (2047, 2048, 4095, 4096, 4097, 8192, 16383, 32768, 65000) if q else [c + d for c in (8192, 16384, 32768, 65000) for d in range(-17, 18)]:
                for s in (None, False, True):
                    yield [kind, n, s]

    def short():
        for kind in ("values", "time", "params", "arch", "archt"):
            for n in range(0, MINLEN[kind]):
                if kind != "time" or n < 6:
                    yield [kind, n]

    def seqs():
        ks = list(ref.KINDS)
        for kinds in itertools.product(ks, repeat=3 if q else 4):
            for sizes in ((3, 9, 2, 4), (40, 0, 17, 5)):
                for enc in (False, True):
                    yield [list(kinds), list(sizes[:len(kinds)]), enc]

    def ztimes():
        for kind in ("time", "values"):
            for pos in range(6):
                for s in (None, False, True):
                    yield [kind, 1, pos, s]

    def fields():
        for kind in ref.KINDS:
            for n in (0, 1, 2, 4, 6):
                for s in (None, False, True):
                    yield [kind, n, s]

    def seqs1():
        for kinds in itertools.product(ref.KINDS, repeat=2):
            for enc in (False, True):
                yield [list(kinds), [9, 5], enc]

    return [
        Family("clocks", at_paces(seqs1), timed(run_seq), "two exchanges, the clocks of this computer running at ten paces"),
        Family("fields", fields, run_fields, "complete product of zero, one, full and ordinary whole fields"),
        Family("zones", in_zones(ztimes), zoned(run_bytes), "device times under seven local time zones"),
        Family("twins", twin, run_twins, "answers followed by ones that agree in length and in a digest, a sum, an end or all but one bit"),
        Family("bytes", bytes_, run_bytes, "every byte value at every position, directly and through plain and encrypted sessions"),
        Family("cross", cross, run_cross, "every byte value at a position x four values at every other one"),
        Family("archives", archives, run_archives, "archive numbers x six values of every byte of the record id"),
        Family("short", short, run_short, "payloads shorter than the fixed part"),
        Family("lengths", lens, run_len, "every data length up to 1100 (thorough 4200)"),
        Family("big", big, run_len, "data lengths up to the end of the length field"),
        Family("pairs", pairs, run_pairs, "special bytes at every pair of positions"),
        Family("sequence", seqs, run_seq, "all sequences of 3 (4) kinds on one session"),
        Family("allpairs", allpairs, run_allpairs, "all 65536 values of adjacent bytes"),
    ]
