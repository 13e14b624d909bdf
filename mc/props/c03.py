"""C03 a corrupted frame is never delivered as an answer."""
import itertools

from mc import ref, session, sut
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C03", "fault_enumeration"
RULE = ("a case is one genuine response (kind, encryption) and one damage class at one position, run for every value of the damage; the reference "
        "decoder decides whether some delimited segment of the damaged stream is still an intact answer; non-trivial = damage left no intact segment")
ASSUMPTIONS = ["damage that happens to yield another fully consistent frame is by definition not detectable and must be delivered as that frame encodes"]

SHORT = {"values": sut.TIMEB + b"\x07" + bytes(range(1, 17)) + b"\x1b\x0e", "time": sut.TIMEB + b"\x00\xaa\xbb",
         "wtime": b"\x00", "params": b"\x01\x00\x02\x00\x01\x1b\x8d", "arch": b"\x01\x04\x03\x02\x01\x0d",
         "archt": b"\x03\x0d\x1b\x8d\x00\x55"}
# other payloads: none at all, refusals, the shortest ones
OTHERS = {"wtime": ["", "01", "80"], "time": [hx(sut.TIMEB), "01"], "values": ["02"], "params": ["0000000001", "40"], "arch": ["02", "20"], "archt": ["03", "04"]}


def base(kind, enc, p=None):
    """The frame with the usual payload of the kind or the given one."""
    p = SHORT[kind] if p is None else un(p)
    if enc:
        return ref.frame(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(p, sut.KEY, sut.KEY_ID), src=(1, 2))
    return ref.frame(ref.RESPONSE, ref.KINDS[kind], p, src=(1, 2))


def feed(kind, enc, stream, ctx, what):
    ctx.trace()
    c = sut.conn(enc)
    c.send(sut.request(kind))
    c.receive_data(bytes(stream))
    res = session.drain(c)
    if res[-1][0] != "need":
        fail("%s: polling does not settle on %s" % (what, hx(stream)))
    good = session.must_not_deliver(stream, kind, enc, res, what)
    if not good:
        ctx.outcome(kind, enc, what, tuple(r for r, _ in res))
    ctx.state(kind, enc, what, tuple(r if r != "error" else type(v).__name__ for r, v in res), good)
    ctx.step()


def refit(f, which):
    """Recompute the redundancy bytes whose bit is set in which (1 LRC, 2 CHK, 4 DRC)."""
    f = bytearray(f)
    red = ref.redundancy(bytes(f[1:-4]))
    for b in range(3):
        if which >> b & 1:
            f[-4 + b] = red[b]
    return bytes(f)


def run_wire(case, ctx):
    """Damage on the stuffed bytes."""
    kind, enc, op, pos = case[:4]
    w = ref.stuff(base(kind, enc, *case[4:]))
    if op == "sub":
        for v in range(256):
            if v != w[pos]:
                feed(kind, enc, w[:pos] + bytes([v]) + w[pos + 1:], ctx, op)
    elif op == "ins":
        for v in range(256):
            feed(kind, enc, w[:pos] + bytes([v]) + w[pos:], ctx, op)
    elif op == "del":
        feed(kind, enc, w[:pos] + w[pos + 1:], ctx, op)
        for n in range(2, 5):
            feed(kind, enc, w[:pos] + w[pos + n:], ctx, op)
            if pos + n < len(w):
                feed(kind, enc, w[:pos] + w[pos + n:-1] + b"\x0d", ctx, op)
    elif op == "dup":
        for n in range(1, 5):
            feed(kind, enc, w[:pos] + w[pos:pos + n] + w[pos:], ctx, op)
    elif op == "cut":
        feed(kind, enc, w[:pos] + b"\x0d", ctx, op)
        feed(kind, enc, w[pos:], ctx, op)
        feed(kind, enc, w[:pos] + b"\x0d" + w[pos:], ctx, op)
        feed(kind, enc, w[:pos] + w, ctx, op)
    elif op == "swap":
        for j in range(pos + 1, len(w)):
            if w[j] != w[pos]:
                m = bytearray(w)
                m[pos], m[j] = m[j], m[pos]
                feed(kind, enc, m, ctx, op)


def run_frame(case, ctx):
    """Damage on the frame before stuffing, with every subset of the redundancy bytes made to fit again."""
    kind, enc, op, pos = case[:4]
    f = base(kind, enc, *case[4:])
    if op == "sub":
        for v in range(256):
            if v != f[pos]:
                m = f[:pos] + bytes([v]) + f[pos + 1:]
                for which in range(8):
                    feed(kind, enc, ref.stuff(refit(m, which)[:-1] + b"\x0d"), ctx, "frame-sub%d" % which)
    elif op == "swap":
        for j in range(pos + 1, len(f) - 1):
            if f[j] != f[pos]:
                m = bytearray(f)
                m[pos], m[j] = m[j], m[pos]
                for which in range(8):
                    feed(kind, enc, ref.stuff(refit(m, which)), ctx, "frame-swap%d" % which)
    elif op == "comp":
        # pairs of changes which leave one or two of the redundancy bytes unchanged
        for j in range(pos + 1, len(f) - 4):
            for d in (1, 2, 0x10, 0x80, 0x81):
                m = bytearray(f)
                m[pos] = (m[pos] + d) & 255
                m[j] = (m[j] - d) & 255
                feed(kind, enc, ref.stuff(bytes(m)), ctx, "comp-sum")
                m = bytearray(f)
                m[pos] ^= d
                m[j] ^= d
                feed(kind, enc, ref.stuff(bytes(m)), ctx, "comp-xor")
                for which in range(1, 7):
                    feed(kind, enc, ref.stuff(refit(m, which)), ctx, "comp-xor-refit%d" % which)
    elif op == "len":
        n = len(f) - 1
        for v in sorted(set(range(0, 80)) | {n + d for d in range(-20, 21)} | {n + 256, n * 256, 0xFFFF, 0x8000 + n}):
            if v != n and v >= 0:
                m = f[:4] + (v & 0xFFFF).to_bytes(2, "little") + f[6:]
                for which in range(8):
                    feed(kind, enc, ref.stuff(refit(m, which)), ctx, "len%d" % which)
    elif op == "lendata":
        # payload shortened or extended with the old length field, redundancy refitted
        for n in range(1, 12):
            for m in (f[:12] + f[12 + n:], f[:-4 - n] + f[-4:], f[:-4] + bytes(n) + f[-4:], f[:12] + bytes(n) + f[12:],
                      f[:-4] + f[-4 - n:-4] + f[-4:]):
                if len(m) > 8 and m != f and m[-1] == 0x0D:
                    for which in (0, 7):
                        feed(kind, enc, ref.stuff(refit(m, which)), ctx, "lendata%d" % which)
    elif op == "runt":
        # short pieces with fitting length and redundancy
        for n in range(0, 11):
            for fill in (0, 1, 0x70):
                body = b"\xfe" + bytes([f[2], f[3]]) + bytes([n + 8, 0]) + bytes([fill] * n)
                m = b"\x02" + body + ref.redundancy(body) + b"\x0d"
                for z in range(-2, 3):
                    mm = bytearray(m)
                    mm[4] = max(0, len(m) - 1 + z)
                    feed(kind, enc, ref.stuff(refit(mm, 7)), ctx, "runt")
    elif op == "red":
        for b in range(3):
            for v in range(256):
                m = bytearray(f)
                m[-4 + b] = v
                feed(kind, enc, ref.stuff(bytes(m)), ctx, "red")
        for a, b in ((0, 1), (0, 2), (1, 2)):
            for v in range(0, 256, 1):
                m = bytearray(f)
                m[-4 + a] ^= v
                m[-4 + b] ^= v
                feed(kind, enc, ref.stuff(bytes(m)), ctx, "red2")
        red = f[-4:-1]
        some = sorted({0, 1, 0x0D, 0x1B, 0x55, 0x7F, 0x80, 0x8D, 0xAA, 0xFE, 0xFF, 2, *red, *(x ^ 0xFF for x in red), *(-x & 0xFF for x in red)})
        for m3 in itertools.chain(itertools.product(some, repeat=3), ((v,) * 3 for v in range(256))):
            m = f[:-4] + bytes(m3) + b"\x0d"
            if m != f:
                feed(kind, enc, ref.stuff(m), ctx, "red3")
        for perm in itertools.permutations(range(3)):
            m = bytearray(f)
            red = f[-4:-1]
            for i, p in enumerate(perm):
                m[-4 + i] = red[p]
            feed(kind, enc, ref.stuff(bytes(m)), ctx, "redperm")


def run_double(case, ctx):
    kind, enc, i, j = case
    f = base(kind, enc)
    vals = (0x00, 0x01, 0x0D, 0x1B, 0x80, 0xFF)
    for a in vals:
        for b in vals:
            m = bytearray(f)
            m[i] ^= a
            m[j] ^= b
            if bytes(m) != f:
                feed(kind, enc, ref.stuff(bytes(m[:-1]) + b"\x0d"), ctx, "double")


def run_long(case, ctx):
    """Damage anywhere in long frames; lengths which differ in the high byte."""
    enc, n, lo, k = case
    kind = "params"
    payload = b"\x01\x00\x02\x00\x01" + bytes((i * 11 + 5) & 255 for i in range(n))
    if enc:
        f = ref.frame(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(payload, sut.KEY, sut.KEY_ID), src=(1, 2))
    else:
        f = ref.frame(ref.RESPONSE, ref.KINDS[kind], payload, src=(1, 2))
    for pos in range(lo, min(lo + k, len(f) - 1)):
        for m in (1, 0x10, 0x80, 0xFF):
            g = bytearray(f)
            g[pos] ^= m
            feed(kind, enc, ref.stuff(bytes(g)), ctx, "long-sub")
            for which in (3, 5, 6) if 0x10 == m else ():
                feed(kind, enc, ref.stuff(refit(g, which)), ctx, "long-refit%d" % which)
        for d in (1, 2, 8, 64):
            if pos + d < len(f) - 1:
                g = bytearray(f)
                g[pos], g[pos + d] = g[pos + d], g[pos]
                if g != f:
                    feed(kind, enc, ref.stuff(bytes(g)), ctx, "long-swap")
        feed(kind, enc, ref.stuff(f[:pos] + f[pos + 1:]), ctx, "long-del")
        feed(kind, enc, ref.stuff(refit(f[:pos] + f[pos + 1:], 7)), ctx, "long-del-refit")
        feed(kind, enc, ref.stuff(refit(f[:pos] + f[pos:pos + 1] + f[pos:], 7)), ctx, "long-dup-refit")


def run_sizes(case, ctx):
    """Frames of many sizes with one redundancy byte wrong, one payload byte wrong, or the length field wrong."""
    enc, n = case
    kind = "params"
    payload = b"\x01\x00\x02\x00\x01" + bytes((i * 11 + (i >> 8) + 5) & 255 for i in range(n))
    if enc:
        f = ref.frame(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(payload, sut.KEY, sut.KEY_ID), src=(1, 2))
    else:
        f = ref.frame(ref.RESPONSE, ref.KINDS[kind], payload, src=(1, 2))
    masks = range(1, 256) if n < 600 else (1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, 0x55, f[-2], f[-3], f[-4]) if n < 20000 else (1, 0x80, 0x33)
    for at in (-2, -3, -4):
        for m in masks:
            if m:
                g = bytearray(f)
                g[at] ^= m
                feed(kind, enc, ref.stuff(bytes(g)), ctx, "sizes-red")
    for pos in {3, 6, 12, 17, 12 + n // 2, 12 + n, len(f) - 5, 255, 256, 257, 1023, 1024, 4096}:
        if pos < len(f) - 4:
            for m in (1, 0x80):
                g = bytearray(f)
                g[pos] ^= m
                for which in range(7 if n < 20000 else 1):
                    feed(kind, enc, ref.stuff(refit(g, which)), ctx, "sizes-sub%d" % which)
            for d in (256, 512, 1024, 8, 16):
                if pos + d < len(f) - 4 and n < 20000:
                    g = bytearray(f)
                    g[pos], g[pos + d] = g[pos + d], g[pos]
                    if g != f:
                        feed(kind, enc, ref.stuff(bytes(g)), ctx, "sizes-swap")
    for d in (-1024, -512, -256, -128, -16, -3, -2, -1, 1, 2, 3, 16, 128, 256, 512, 1024, 4096, 0x8000):
        length = len(f) - 1 + d
        if 0 <= length < 65536:
            g = f[:4] + length.to_bytes(2, "little") + f[6:]
            feed(kind, enc, ref.stuff(refit(g, 7)), ctx, "sizes-len")
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def sizes():
        for enc in (False, True):
            for n in (0, 1, 40, 100, 230, 240, 241, 250, 300, 490, 508, 600, 1003, 1004, 1010, 1024, 2030, 4070, 4096, 9000) + ((65000,) if not enc else (64000,)):
                yield [enc, n]
            if not q:
                for n in list(range(2, 600, 7)) + [20000, 32750, 32768, 50000]:
                    yield [enc, n]

    def long():
        for enc in (False, True):
            for n in (260, 700) if q else (260, 700, 1500, 4200):
                for lo in range(0, n + 60, 40):
                    yield [enc, n, lo, 40]
    kinds = list(ref.KINDS)

    def wires():
        for enc in (False, True):
            for op in ("sub", "del", "cut", "dup", "swap", "ins"):
                for kind in kinds:
                    for pos in range(len(ref.stuff(base(kind, enc))) + (op == "ins")):
                        yield [kind, enc, op, pos]

    def frames():
        for enc in (False, True):
            for kind in kinds:
                n = len(base(kind, enc))
                for op in ("len", "lendata", "runt", "red"):
                    yield [kind, enc, op, 0]
                for op in ("swap", "comp", "sub"):
                    if enc and op == "sub" and q and kind not in ("time", "wtime"):
                        continue
                    for pos in range(0, n - 1):
                        yield [kind, enc, op, pos]

    def others():
        for enc in (False, True):
            for kind in kinds:
                for p in OTHERS[kind]:
                    for op in ("sub", "del", "cut", "dup", "swap", "ins"):
                        for pos in range(len(ref.stuff(base(kind, enc, p))) + (op == "ins")):
                            yield [kind, enc, op, pos, p]

    def otherframes():
        for enc in (False, True):
            for kind in kinds:
                for p in OTHERS[kind]:
                    for op in ("len", "lendata", "runt", "red"):
                        yield [kind, enc, op, 0, p]
                    if not enc or not q:
                        for op in ("swap", "comp", "sub"):
                            for pos in range(len(base(kind, enc, p)) - 1):
                                yield [kind, enc, op, pos, p]

    def double():
        for enc in (False, True):
            for kind in (("time", "wtime", "arch") if q else kinds):
                n = len(base(kind, enc))
                for i, j in itertools.combinations(range(n - 1), 2):
                    yield [kind, enc, i, j]

    return [
        Family("wire", wires, run_wire, "one damage on the wire bytes: every position and value"),
        Family("frame", frames, run_frame, "one damage on the frame, redundancy refitted in every subset; compensating pairs; lengths; runts"),
        Family("otherwire", others, run_wire, "the same with empty payloads, refusals and the shortest answers"),
        Family("otherframe", otherframes, run_frame, "the same with empty payloads, refusals and the shortest answers"),
        Family("sizes", sizes, run_sizes, "frames of 20 (thorough 110) payload sizes up to 65000 bytes: redundancy bytes, payload bytes and length field wrong"),
        Family("long", long, run_long, "substitution, exchange, loss and doubling at every position of frames of 275 and 715 (thorough 4200) bytes"),
        Family("double", double, run_double, "two xor damages at every pair of positions over 6 masks"),
    ]
