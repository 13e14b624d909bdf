"""C02 frame layout."""
import itertools

from mc import ref, sut
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C02", "exploration"
RULE = ("a case fixes a frame class and all header fields but one block of values; each frame is serialised and parsed by the real "
        "code and compared with the reference layout; non-trivial = payload or an address byte is non-zero")
ASSUMPTIONS = ["payload lengths beyond the bound behave like those inside it (the length field is checked up to 65535-15 at the boundary)"]
CLASSES = {"Request": 0x84, "EncryptedRequest": 0x85, "Response": 0x86, "EncryptedResponse": 0x87}


def one(cls, service, d1, d2, s1, s2, data, ctx):
    from elgas import constants, frames
    klass = getattr(frames, cls)
    f = klass(service=constants.ServiceNumber(service), destination_address_1=d1, destination_address_2=d2,
              source_address_1=s1, source_address_2=s2, data=data)
    want = ref.frame(CLASSES[cls], service, data, dst=(d1, d2), src=(s1, s2))
    got = f.to_bytes()
    if bytes(got) != want:
        fail("%s serialises to %s, expected %s" % (cls, hx(got)[:200], hx(want)[:200]))
    for parse in ((klass.from_bytes, frames.ResponseFactory.from_bytes) if cls.endswith("Response") else (klass.from_bytes,)):
        g = parse(want)
        t = (g.service, g.destination_address_1, g.destination_address_2, g.source_address_1, g.source_address_2, bytes(g.data))
        if t != (service, d1, d2, s1, s2, data):
            fail("parsing a %s frame gives %r, expected %r" % (cls, t[:5], (service, d1, d2, s1, s2)))
        if type(g) is not klass:
            fail("parsing a %s frame gives a %s" % (cls, type(g).__name__))
        if bytes(g.to_bytes()) != want:
            fail("a parsed %s frame serialises differently" % cls)
    if f != klass.from_bytes(got):
        fail("a frame is not equal to its parsed serialisation")
    ctx.trace()
    ctx.outcome(cls, service, len(data), d1 >> 8, s1 >> 8)


def run_addr16(case, ctx):
    cls, field, hi = case
    for lo in range(256):
        v = hi * 256 + lo
        a = dict(d1=0x1234, d2=0x56, s1=0x789A, s2=0xBC)
        a[field] = v
        one(cls, 0x6C, a["d1"], a["d2"], a["s1"], a["s2"], b"\x01", ctx)


def run_one(case, ctx):
    cls, service, addr, data = case
    one(cls, service, *addr, un(data), ctx)


def run_pairs(case, ctx):
    """Payloads of two bytes: every second byte, at the front, at the end and alone."""
    cls, a = case
    for b in range(256):
        for data in (bytes([a, b]), bytes([a, b]) + b"payload", b"payload" + bytes([a, b])):
            one(cls, 0x70, 1, 2, 3, 4, data, ctx)


def run_nested(case, ctx):
    """Payloads which look like (parts of) frames themselves."""
    cls, inner, n = case
    f = ref.frame(CLASSES[inner], 0x70, bytes(range(n)), dst=(1, 2), src=(3, 4))
    s = ref.stuff(f)
    for whole in (f, s, f * 2, f[:-1] * 2, f[1:] + f[:1]):
        for i in range(len(whole) + 1):
            one(cls, 0x70, 1, 2, 3, 4, whole[i:], ctx)
            one(cls, 0x70, 1, 2, 3, 4, whole[:i], ctx)
            one(cls, 0x70, 1, 2, 3, 4, whole[:i] + whole[i:][1:], ctx)


FIELDS = ("service", "destination_address_1", "destination_address_2", "source_address_1", "source_address_2", "data")


def run_changed(case, ctx):
    """One frame object, its fields changed between serialisations (built or parsed): each time it is what it holds."""
    from elgas import constants, frames
    cls, ns, origin = case
    klass = getattr(frames, cls)
    v = dict(service=0x70, destination_address_1=0x1234, destination_address_2=0x56, source_address_1=0x789A, source_address_2=0xBC, data=b"\x01\x0d")

    def want():
        return ref.frame(CLASSES[cls], v["service"], v["data"], dst=(v["destination_address_1"], v["destination_address_2"]),
                         src=(v["source_address_1"], v["source_address_2"]))

    if origin == "parsed":
        f = klass.from_bytes(want())
    else:
        f = klass(**dict(v, service=constants.ServiceNumber(v["service"])))
    touch = {"len": lambda: f.length, "repr": lambda: repr(f), "bytes": lambda: f.to_bytes()}
    log = []
    for step, n in enumerate(ns):
        for t in ("len", "repr", "bytes")[step % 3:]:
            if hasattr(f, "length") or t != "len":
                touch[t]()
        name = FIELDS[n]
        new = {"service": (0x6C, 0x71)[step & 1], "data": (b"", b"\xff" * 9, b"\x0d\x1b\x8d", bytes(300))[step % 4]}.get(
            name, (0xF1, 0x0D)[step & 1] if name.endswith("2") else (0xFF0D, 0x1B)[step & 1])
        v[name] = new
        setattr(f, name, constants.ServiceNumber(new) if name == "service" else new)
        log.append(name)
        got = bytes(f.to_bytes())
        ctx.step()
        ctx.state(cls, origin, tuple(log))
        if got != want():
            fail("%s frame (%s) with %s changed one after the other serialises to %s, expected %s" % (cls, origin, log, hx(got)[:160], hx(want())[:160]))
        g = klass.from_bytes(got)
        if bytes(g.data) != v["data"] or g.service != v["service"]:
            fail("%s frame (%s) with %s changed is parsed as %r" % (cls, origin, log, g))
        if g != f:
            fail("%s frame (%s) with %s changed is not equal to its parsed serialisation" % (cls, origin, log))
    ctx.outcome(str(case))


def run_len(case, ctx):
    cls, n, pat = case
    one(cls, 0x70, 1, 2, 3, 4, bytes((i * pat + n) & 255 for i in range(n)), ctx)


def run_conn(case, ctx):
    kind, enc, addr = case
    c = sut.conn(enc, addr=tuple(addr))
    w = c.send(sut.request(kind))
    f, _ = sut.check_request(kind, w, enc)
    if f["dst"] != (addr[0], addr[1]) or f["src"] != (addr[2], addr[3]):
        fail("configured destination %r source %r, sent %r %r" % (addr[:2], addr[2:], f["dst"], f["src"]))
    ctx.outcome(kind, enc, addr[0] >> 8, addr[2] >> 8)


def run_conn16(case, ctx):
    field, hi = case
    for lo in range(256):
        a = [0x0102, 3, 0x0405, 6]
        a[field] = hi * 256 + lo
        run_conn(["time", False, a], ctx)
        ctx.trace()


def run_recv(case, ctx):
    """A response from and to any address carries its payload to the caller."""
    kind, enc, dst, src = case
    c = sut.conn(enc)
    c.send(sut.request(kind))
    c.receive_data(sut.response_wire(kind, sut.RESP[kind], enc, dst=tuple(dst), src=tuple(src)))
    k, v = sut.poll(c)
    if k != "answer":
        fail("valid response not delivered: %s %r" % (k, v))
    sut.check_answer(kind, sut.RESP[kind], v)
    ctx.outcome(kind, enc, dst[0] >> 8, src[0] >> 8)


ENDS = ["answer", "answer0", "error", "error0", "reset", "push", "junk"]


def run_history(case, ctx):
    """Requests on one connection, the responses coming from and going to other addresses; the configured addresses may change in between."""
    addr, steps = case
    addr = list(addr)
    names = ("destination_address_1", "destination_address_2", "source_address_1", "source_address_2")
    enc = bool(sum(addr) & 1)
    c = sut.conn(enc, addr=tuple(addr))
    for i, (kind, end, change) in enumerate(steps):
        what = "%s, request %d" % (case, i)
        f, _ = sut.check_request(kind, c.send(sut.request(kind)), enc)
        ctx.step()
        if f["dst"] != tuple(addr[:2]) or f["src"] != tuple(addr[2:]):
            fail("%s: configured destination %r source %r, sent %r %r" % (what, addr[:2], addr[2:], f["dst"], f["src"]))
        ctx.state(str(addr), kind, end, i)
        dst, src = ((0x0301, 9), (0x0702, 0x1B)) if end[-1:] != "0" else ((0, 0), (0, 0))
        w = sut.response_wire(kind, sut.RESP[kind], enc, dst=dst, src=src)
        if end == "reset":
            c.receive_data(w[:20])
            c.reset()
        elif end.startswith("error"):
            c.receive_data(sut.response_wire(kind, b"\x08", enc, dst=dst, src=src))
            if sut.poll(c)[0] != "error":
                fail("%s: device error not raised" % what)
        else:
            if end == "junk":
                bad = bytearray(w)
                bad[8] ^= 1
                c.receive_data(bytes(bad))
            c.receive_data(w)
            r = sut.poll(c)
            if r[0] != "answer":
                fail("%s: valid response gives %s %r" % (what, r[0], r[1]))
            sut.check_answer(kind, sut.RESP[kind], r[1], what)
            if end == "push":
                c.receive_data(w)
                sut.poll(c)
        if change is not None:
            addr[change] = (addr[change] * 5 + 0x21) & (0xFFFF, 0xFF)[change & 1]
            setattr(c, names[change], addr[change])
    ctx.trace()
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def history():
        for addr in ((0, 0, 0, 0), (5, 0, 0, 0), (0, 0, 0, 9), (0x0D1B, 0x8D, 0x1234, 0x56), (0, 7, 0x102, 0), (0xFFFF, 0xFF, 0xFFFF, 0xFF)):
            for n in (2, 3):
                for ends in itertools.product(ENDS, repeat=n - 1):
                    for ks in itertools.product(ref.KINDS, repeat=2) if n == 2 or not q else (("time", "params"), ("arch", "wtime"), ("wtime", "wtime")):
                        ks = list(ks) + ["values"]
                        for change in itertools.product((None, 0, 1, 2, 3), repeat=n - 1) if n == 2 or not q else ((None, None), (0, None), (2, 0), (1, 3)):
                            yield [addr, [[k, e, ch] for k, e, ch in zip(ks, list(ends) + ["answer"], list(change) + [None])]]

    B16 = [0, 1, 0x0D, 0xFF, 0x100, 0x0D00, 0x1B8D, 0x7FFF, 0x8000, 0xFFFF]
    B8 = [0, 1, 0x0D, 0x7F, 0x80, 0xFF]

    def addr16():
        for cls in CLASSES:
            for field in ("d1", "s1"):
                for hi in range(256):
                    yield [cls, field, hi]

    def addr8():
        for cls in CLASSES:
            for v in range(256):
                yield [cls, 0x64, [0x1234, v, 0x789A, 0xBC], "00"]
                yield [cls, 0x64, [0x1234, 0x56, 0x789A, v], "00"]

    def prod():
        for cls in CLASSES:
            for d1, s1 in itertools.product(B16, B16):
                for d2, s2 in itertools.product(B8, B8):
                    yield [cls, 0x7C, [d1, d2, s1, s2], "0d1b8d"]

    def services():
        for cls in CLASSES:
            for s in ref.SERVICES.values():
                for data in ("", "00", "0d", "1b0e", "ff" * 20):
                    yield [cls, s, [0, 0, 0, 0], data]
                    yield [cls, s, [0xFFFF, 0xFF, 0xFFFF, 0xFF], data]

    def payload():
        for cls in CLASSES:
            for a in range(256):
                for pos in range(4):
                    d = bytearray(b"\x00\x11\x22\x33")
                    d[pos] = a
                    yield [cls, 0x71, [1, 2, 3, 4], hx(d)]
                for b in (0, 1, 0x0D, 0x1B, 0x80, 0xFF) if q else range(256):
                    yield [cls, 0x71, [1, 2, 3, 4], hx(bytes([a, b]))]

    def pairs():
        for cls in CLASSES:
            for a in range(256):
                yield [cls, a]

    def nested():
        for cls in CLASSES:
            for inner in CLASSES:
                for n in (0, 1, 2, 5, 30):
                    yield [cls, inner, n]

    def lens():
        for cls in CLASSES:
            for n in itertools.chain(range(0, 700 if q else 2200), [k for c in (1024, 2048, 4096, 8192, 16384, 32768, 61440) for k in range(c - 18, c + 3)], range(65500, 65521)):
                for pat in (0, 1, 7):
                    yield [cls, n, pat]

    def changed():
        for cls in CLASSES:
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                for ns in itertools.product(range(len(FIELDS)), repeat=n):
                    for origin in ("built", "parsed"):
                        yield [cls, list(ns), origin]

    def conns():
        for enc in (False, True):
            for kind in ref.KINDS:
                for d1, s1 in itertools.product(B16, B16):
                    for d2, s2 in ((0, 0), (0xFF, 1), (0x0D, 0x1B), (0x80, 0xFE)):
                        yield [kind, enc, [d1, d2, s1, s2]]
                for v in range(256):
                    yield [kind, enc, [5, v, 6, 255 - v]]

    def conn16():
        for field in (0, 2):
            for hi in range(256):
                yield [field, hi]

    def recv():
        for enc in (False, True):
            for kind in ref.KINDS:
                for d1, s1 in itertools.product(B16, B16):
                    yield [kind, enc, [d1, 0x0D], [s1, 0x1B]]
                for v in range(256):
                    yield [kind, enc, [5, v], [6, v]]

    return [
        Family("services", services, run_one, "14 services x 4 classes"),
        Family("addr8", addr8, run_one, "all 8-bit address parts"),
        Family("addr16", addr16, run_addr16, "all 16-bit address parts"),
        Family("prod", prod, run_one, "boundary products of the four address parts"),
        Family("payload", payload, run_one, "payload bytes"),
        Family("pairs", pairs, run_pairs, "payloads beginning or ending with every two bytes"),
        Family("nested", nested, run_nested, "payloads which are parts of frames"),
        Family("changed", changed, run_changed, "up to 3 (thorough 4) fields of a frame object changed between serialisations"),
        Family("lens", lens, run_len, "payload lengths"),
        Family("conn", conns, run_conn, "addresses configured on a connection x request kinds"),
        Family("conn16", conn16, run_conn16, "all 16-bit addresses through a connection"),
        Family("history", history, run_history, "two and three exchanges with responses from other addresses, configured addresses changed in between"),
        Family("recv", recv, run_recv, "responses from/to every address"),
    ]
