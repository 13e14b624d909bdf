"""C01 byte stuffing."""
import itertools

from mc import ref, sut
from mc.core import Family, fail, hx, un, raises

PROP, LEVEL = "C01", "exploration"
RULE = ("a case is a block of byte strings sharing a prefix (blk) or one string; every string of the bound is stuffed and "
        "unstuffed by the real code and compared with the reference table; non-trivial = contains a reserved byte or a substitute")
ASSUMPTIONS = ["the codec treats bytes outside {02,0d,1b,8d,0e,0f,fe} alike unless the full-alphabet families show otherwise"]
SPECIAL = [0x41, 0x0D, 0x1B, 0x8D, 0x0E, 0x0F, 0x02, 0xFE]


def check(body, ctx):
    from elgas import utils
    s = bytes(body) + b"\x0d"
    w = utils.escape_characters(s)
    if bytes(w) != ref.stuff(s):
        fail("stuffing %s gives %s, expected %s" % (hx(s), hx(w), hx(ref.stuff(s))))
    if w.count(b"\x0d") != 1 or not w.endswith(b"\x0d") or b"\x8d" in w:
        fail("stuffed form %s of %s has a reserved byte inside" % (hx(w), hx(s)))
    back = utils.return_characters(w)
    if bytes(back) != s:
        fail("unstuffing the stuffed form of %s gives %s" % (hx(s), hx(back)))
    if w != s:
        ctx.outcome(len(w) - len(s), len(s))


def run_block(case, ctx):
    pre, k, alpha = case
    pre, alpha = un(pre), un(alpha)
    for t in itertools.product(alpha, repeat=k):
        check(pre + bytes(t), ctx)
        ctx.trace()


def run_one(case, ctx):
    check(un(case), ctx)


def run_border(case, ctx):
    n, u, lo, k = case
    u = un(u)
    for pos in range(lo, lo + k):
        for fill in (0x41,) if n > 5000 else (0x41, 0x1B):
            s = bytearray([fill]) * n
            s[pos:pos + len(u)] = u
            check(s, ctx)
            ctx.trace()


def run_dense(case, ctx):
    """Long strings in which every place is inside or next to an escape pair, at both alignments."""
    n, u = case
    u = un(u)
    for lead in range(3):
        for cut in range(2):
            check(b"A" * lead + (u * n)[:n - cut], ctx)
            ctx.trace()
            ctx.state(n, hx(u), lead, cut)
    ctx.outcome(n, hx(u))


def run_refuse(case, ctx):
    from elgas import utils
    s = un(case)
    bad, v = raises((ValueError,), utils.escape_characters, s)
    if not bad:
        bad2 = False
        fail("stuffing %s, which does not end in the terminator, is not refused: %r" % (case, v))
    ctx.outcome(len(s))


def run_types(case, ctx):
    from elgas import utils
    s = un(case) + b"\x0d"
    for kind in (bytes, bytearray):
        w = utils.escape_characters(kind(s))
        if bytes(w) != ref.stuff(s):
            fail("stuffing %s(%s) gives %s" % (kind.__name__, hx(s), hx(w)))
        src = kind(w)
        if bytes(utils.return_characters(src)) != s:
            fail("unstuffing %s(%s) fails" % (kind.__name__, hx(w)))
        if bytes(src) != bytes(w):
            fail("unstuffing changes the caller's buffer")
    ctx.outcome(len(s))


def run_conn(case, ctx):
    """The connection unstuffs what a device sends, byte for byte (parameter page data is delivered verbatim)."""
    body = un(case)
    c = sut.conn()
    c.send(sut.request("params"))
    payload = b"\x01\x00\x02\x00\x01" + body
    c.receive_data(sut.response_wire("params", payload))
    k, v = sut.poll(c)
    if k != "answer":
        fail("valid response with data %s not delivered (%s %r)" % (case, k, v))
    sut.check_answer("params", payload, v)
    ctx.outcome(len(body))


def run_send(case, ctx):
    """What a connection puts on the wire is the stuffed request frame."""
    addr, oc = case
    c = sut.conn(addr=tuple(addr))
    w = c.send(sut.request("params", object_count=oc))
    if w.count(b"\x0d") != 1 or not bytes(w).endswith(b"\x0d") or b"\x8d" in w:
        fail("reserved byte inside the request on the wire: %s" % hx(w))
    f, _ = sut.check_request("params", w, object_count=oc)
    if f["dst"] != (addr[0], addr[1]) or f["src"] != (addr[2], addr[3]):
        fail("addresses %r arrive as %r %r" % (addr, f["dst"], f["src"]))
    ctx.outcome(len(w))


def families(tier):
    q = tier == "quick"
    top = 7 if q else 8
    tail = 4
    sp = hx(bytes(SPECIAL))
    full = hx(bytes(range(256)))

    def special():
        for n in range(0, top + 1):
            k = min(n, tail)
            for pre in itertools.product(SPECIAL, repeat=n - k):
                yield [hx(bytes(pre)), k, sp]

    def two():
        yield ["", 1, full]
        for a in range(256):
            yield [hx(bytes([a])), 1, full]

    def three():
        # full-alphabet byte between every pair of special bytes
        for a in SPECIAL:
            for b in range(256):
                yield [hx(bytes([a, b])), 1, sp]

    def longs():
        for n in ((40, 300) if q else (40, 300, 1500)):
            for b in range(256):
                for pos in {0, 1, n // 2, n - 2, n - 1}:
                    for fill in (0x41, 0x1B):
                        s = bytearray([fill] * n)
                        s[pos] = b
                        yield hx(s)

    def borders():
        """One or two special bytes at every position of a long string (codecs which work in blocks)."""
        units = ["0d", "1b", "8d", "1b0e", "1b1b", "0d0d", "1b0f", "0e"]
        for n in (600, 1100) if q else (600, 1100, 2100):
            for u in units:
                for lo in range(0, n, 100):
                    yield [n, u, lo, 100]
        for n in (4200, 66000):
            for u in units:
                for k in (256, 1000, 1024, 2048, 4096) + ((8192, 16384, 32768, 65536) if n > 5000 else ()):
                    yield [n, u, k - 4, 7]

    def dense():
        for n in (700, 1500, 5000, 20000, 33000, 66000, 70000, 135000) if q else (700, 1500, 5000, 20000, 33000, 66000, 70000, 135000, 270000, 600000):
            for u in ("0d", "1b", "8d", "0d1b8d", "1b0e", "8d8d0d1b0f", "0d41"):
                yield [n, u]

    def runs():
        for n in range(0, 260 if q else 2100):
            for b in SPECIAL:
                yield hx(bytes([b] * n))

    def refuse():
        yield ""
        for n in range(1, 4):
            for t in itertools.product(SPECIAL, repeat=n):
                if t[-1] != 0x0D:
                    yield hx(bytes(t))
        for b in range(256):
            if b != 0x0D:
                yield hx(bytes([0x0D, b]))

    def types():
        for n in range(0, 4):
            for t in itertools.product(SPECIAL, repeat=n):
                yield hx(bytes(t))

    def conns():
        for n in range(0, 4 if q else 5):
            for t in itertools.product(SPECIAL, repeat=n):
                yield hx(bytes(t))

    def sends():
        vals = [0, 0x0D, 0x1B, 0x8D, 0x0E, 0x0F]
        for a in vals:
            for b in vals:
                for v in vals:
                    for w in vals:
                        yield [[a * 256 + b, v, w * 256 + a, b], v * 256 + w]

    return [
        Family("special", special, run_block, "all strings over the 8 special bytes up to length %d" % top),
        Family("two", two, run_block, "all 1- and 2-byte strings"),
        Family("three", three, run_block, "special x any x special"),
        Family("refuse", refuse, run_refuse, "strings not ending in the terminator, up to 3 special bytes"),
        Family("types", types, run_types, "bytes and bytearray arguments, up to 3 special bytes"),
        Family("long", longs, run_one, "every byte value at 5 positions of long strings"),
        Family("runs", runs, run_one, "runs of every special byte of every length"),
        Family("borders", borders, run_border, "special bytes at every position of strings of 600 and 1100 bytes, around block borders up to 66000"),
        Family("dense", dense, run_dense, "strings of up to 135000 (thorough 600000) bytes full of escape pairs"),
        Family("conn", conns, run_conn, "all response data over the special bytes through a connection"),
        Family("send", sends, run_send, "request header/payload bytes over reserved bytes through a connection"),
    ]
