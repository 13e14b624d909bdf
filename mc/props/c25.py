"""C25 a frame is read exactly, or refused."""
import itertools

from mc import ref
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C25", "fault_enumeration"
RULE = ("a case is a frame class and one base frame with one class of damage at one position (run for every value), or a block of byte strings "
        "enumerated outright; the reference parser decides whether the bytes are an intact frame of that class; non-trivial = they are not")
ASSUMPTIONS = ["damage that yields another fully consistent frame is by definition not detectable"]
CLASSES = {"Request": 0x84, "EncryptedRequest": 0x85, "Response": 0x86, "EncryptedResponse": 0x87}
KNOWN = set(ref.SERVICES.values())
PAYLOADS = ["", "00", "0d", "0d1b8d", "02fe84", "ff" * 7, "0000000000", bytes(range(40)).hex()]


def base(cls, data, service=0x7C):
    return ref.frame(CLASSES[cls], service, un(data), dst=(0x1234, 0x0D), src=(0x8D1B, 2))


def judge(cls, raw, ctx, what):
    """Read raw with the class, and through the factory when it is a response class."""
    from elgas import exceptions, frames
    raw = bytes(raw)
    ctx.trace()
    ctx.step()
    klass = getattr(frames, cls)
    f = ref.parse_frame(raw)
    good = f is not None and f["type"] == CLASSES[cls] and f["service"] in KNOWN
    for given in (raw,):
        try:
            g = klass.from_bytes(given)
        except (ValueError, exceptions.ElgasError) as e:
            if good:
                fail("%s: intact %s frame %s is refused: %r" % (what, cls, hx(raw), e))
            continue
        except Exception as e:
            fail("%s: reading %s as a %s frame ends in %r" % (what, hx(raw)[:200], cls, e))
        if not good:
            fail("%s: %s is accepted as a %s frame with payload %s" % (what, hx(raw)[:200], cls, hx(g.data)[:200]))
        got = (g.service, (g.destination_address_1, g.destination_address_2), (g.source_address_1, g.source_address_2), bytes(g.data))
        if got != (f["service"], f["dst"], f["src"], f["data"]):
            fail("%s: %s is read as %r" % (what, hx(raw)[:200], got))
        if bytes(g.to_bytes()) != raw:
            fail("%s: %s serialises differently once read" % (what, hx(raw)[:200]))
        if bytes(given) != raw:
            fail("%s: reading %s changes it" % (what, hx(raw)[:200]))
    if cls.endswith("Response"):
        any_good = f is not None and f["type"] in (0x86, 0x87) and f["service"] in KNOWN
        try:
            g = frames.ResponseFactory.from_bytes(raw)
        except (ValueError, exceptions.ElgasError) as e:
            if any_good:
                fail("%s: intact response %s is refused: %r" % (what, hx(raw), e))
        else:
            if not any_good:
                fail("%s: %s is accepted as a response" % (what, hx(raw)[:200]))
            if type(g).__name__ != {0x86: "Response", 0x87: "EncryptedResponse"}[f["type"]]:
                fail("%s: %s is read as a %s" % (what, hx(raw)[:200], type(g).__name__))
    if not good:
        ctx.outcome(cls, what, len(raw))
    ctx.state(cls, what, len(raw), good)


def refit(m, which):
    m = bytearray(m)
    if len(m) < 6:
        return bytes(m)
    red = ref.redundancy(bytes(m[1:-4]))
    for b in range(3):
        if which >> b & 1:
            m[-4 + b] = red[b]
    return bytes(m)


def run_damage(case, ctx):
    cls, data, op, pos = case
    f = base(cls, data)
    n = len(f)
    if op == "intact":
        judge(cls, f, ctx, op)
    elif op == "sub":
        for v in range(256):
            if v != f[pos]:
                m = f[:pos] + bytes([v]) + f[pos + 1:]
                judge(cls, m, ctx, op)
                for which in range(1, 8):
                    judge(cls, refit(m, which), ctx, "sub%d" % which)
    elif op == "ins":
        for v in range(256):
            m = f[:pos] + bytes([v]) + f[pos:]
            judge(cls, m, ctx, op)
            judge(cls, refit(m, 7), ctx, "ins7")
    elif op == "del":
        for k in range(1, 5):
            for m in (f[:pos] + f[pos + k:], f[:pos] + f[pos:pos + k] * 2 + f[pos + k:]):
                judge(cls, m, ctx, op)
                judge(cls, refit(m, 7), ctx, "del7")
    elif op == "cut":
        for m in (f[:pos], f[pos:], f[:pos] + b"\x0d", f[:pos] + f, f + f[:pos], f[:pos] + f[n - 1 - pos:]):
            judge(cls, m, ctx, op)
            judge(cls, refit(m, 7), ctx, "cut7")
    elif op == "swap":
        for j in range(pos + 1, n):
            m = bytearray(f)
            m[pos], m[j] = m[j], m[pos]
            for which in (0, 1, 2, 3, 4, 5, 6, 7):
                judge(cls, refit(m, which), ctx, "swap%d" % which)
    elif op == "pair":
        # two changes which leave one or two of the redundancy bytes as they were
        for j in range(pos + 1, n - 4):
            for d in (1, 2, 0x10, 0x80, 0x81):
                m = bytearray(f)
                m[pos], m[j] = (m[pos] + d) & 255, (m[j] - d) & 255
                judge(cls, m, ctx, "sum")
                m = bytearray(f)
                m[pos] ^= d
                m[j] ^= d
                judge(cls, m, ctx, "xor")
                for rot in range(8):
                    m = bytearray(f)
                    m[pos] ^= d
                    m[j] ^= ((d << rot) | (d >> 8 - rot)) & 255
                    judge(cls, m, ctx, "rot")


def run_red(case, ctx):
    """All values of two of the three redundancy bytes."""
    cls, data, which, a = case
    f = base(cls, data)
    i, j = which
    for b in range(256):
        m = bytearray(f)
        m[i], m[j] = a, b
        judge(cls, m, ctx, "red")


def run_length(case, ctx):
    """Length field against actual length, redundancy bytes right."""
    cls, hi = case
    for n in range(0, 6):
        for lo in range(256):
            judge(cls, ref.frame(CLASSES[cls], 0x6C, bytes(range(n)), length=hi * 256 + lo), ctx, "length")


def run_head(case, ctx):
    """The three prefix bytes and the service byte, redundancy bytes right."""
    cls, a = case
    f = base(cls, "0102")
    for pos in range(4):
        for b in range(256):
            for pos2 in range(4):
                if pos2 != pos:
                    m = bytearray(f)
                    m[pos], m[pos2] = a, b
                    judge(cls, refit(m, 7), ctx, "head")


def run_short(case, ctx):
    """Strings too short to be a frame, over the bytes that matter."""
    cls, front, n = case
    for s in itertools.product((0x00, 0x02, 0xFE, CLASSES[cls], 0x6C, 0x0F, 0x0D), repeat=n):
        judge(cls, un(front) + bytes(s), ctx, "short")
        judge(cls, un(front) + bytes(s) + b"\x0d", ctx, "short")


def run_stub(case, ctx):
    """Frames lacking part of their fixed fields, everything else consistent."""
    cls, n = case
    whole = bytes([0xFE, CLASSES[cls], 0x6C])
    for fill in (0, 1, 0x0D, 0x1B, 0x8D, 0xFF, None):
        for cut in range(0, 4):
            body = bytearray(whole + bytes((i if fill is None else fill) for i in range(n)))
            for length in {n + 6 + d for d in range(-4, 5)}:
                if n >= 2:
                    body[3:5] = (length & 0xFFFF).to_bytes(2, "little")
                elif length != n + 6:
                    continue
                red = ref.redundancy(body)
                judge(cls, b"\x02" + bytes(body) + red[cut:] + b"\x0d", ctx, "stub")


def run_each(case, ctx):
    """Every class is offered the intact frames of every other."""
    cls, other, service, n = case
    judge(cls, ref.frame(CLASSES[other], service, bytes((7 * i) & 255 for i in range(n)), dst=(0xFFFF, 0xFF), src=(0, 0)), ctx, "each")


def families(tier):
    q = tier == "quick"
    payloads = PAYLOADS if q else PAYLOADS + ["0102030405060708090a0b0c0d0e0f10" * 6, "80" * 20, "1b0e1b1b1b0f"]

    def damage():
        for data in payloads:
            for cls in CLASSES:
                n = len(base(cls, data))
                yield [cls, data, "intact", 0]
                for op in ("sub", "ins", "del", "cut", "swap", "pair"):
                    for pos in range(1 if op == "pair" else 0, n - 4 if op == "pair" else n + (op in ("ins", "cut"))):
                        yield [cls, data, op, pos]

    def red():
        for cls in CLASSES:
            for data in ("", "0102") if q else ("", "0102", "0d1b8d", "ffff"):
                for which in ((-4, -3), (-4, -2), (-3, -2)):
                    for a in range(256):
                        yield [cls, data, list(which), a]

    def length():
        for cls in CLASSES:
            for hi in (0, 1, 0x0D, 0x10, 0x80, 0xFF) if q else range(256):
                yield [cls, hi]

    def head():
        for cls in CLASSES:
            for a in range(256):
                yield [cls, a]

    def short():
        for cls in CLASSES:
            for n in range(0, 5 if q else 7):
                for front in ("", "02fe%02x" % CLASSES[cls], "02fe%02x6c" % CLASSES[cls], "02fe%02x6c0f00" % CLASSES[cls]):
                    yield [cls, front, n]

    def stub():
        for cls in CLASSES:
            for n in range(0, 24):
                yield [cls, n]

    def each():
        for cls in CLASSES:
            for other in CLASSES:
                for service in range(256):
                    for n in (0, 1, 30):
                        yield [cls, other, service, n]

    return [
        Family("each", each, run_each, "each class x intact frames of each class x all 256 service bytes"),
        Family("damage", damage, run_damage, "every single damage at every place x subsets of the redundancy bytes made to fit"),
        Family("red", red, run_red, "every pair of values of two redundancy bytes"),
        Family("length", length, run_length, "length field against actual length"),
        Family("head", head, run_head, "every two of the four leading bytes"),
        Family("short", short, run_short, "all short strings over the bytes that matter"),
        Family("stub", stub, run_stub, "frames without part of their fixed fields"),
    ]
