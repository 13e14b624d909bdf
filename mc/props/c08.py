"""C08 with a key configured requests leave only encrypted and decryptable."""
import contextlib
import datetime as dt
import itertools
import random

from mc import ref, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.props.c04 import Script, client

PROP, LEVEL = "C08", "exploration"
RULE = ("every request length, key id and request kind within the bounds, sealed by the code and opened by an independent AES-CBC/CRC "
        "implementation, and the other way round; a state is (direction, length mod block, key id, key size, content class)")
ASSUMPTIONS = ["an empty key counts as no key", "AES block encryption itself is taken from the cryptography package on both sides; mode, IV, padding, header and CRC are independent",
               "padding bytes are free (the code's random choices are enumerated: all equal or rising); their count is determined"]

KEYS = {"16": bytes(range(0x30, 0x40)), "zero": bytes(16), "ff": b"\xff" * 16, "high": bytes(range(200, 216)),
        "special": b"\x0d\x1b\x8d\x00" * 4}
FILL = ["00", "ff", "count", "0d1b8d"]


def content(fill, n):
    if fill == "count":
        return bytes((i * 7 + 3) & 255 for i in range(n))
    pat = bytes.fromhex(fill)
    return (pat * (n // len(pat) + 1))[:n]


def context(key, key_id):
    from elgas import security
    return security.CipherContext(key_id=key_id, key=key)


def check_sealed(out, data, key, key_id, what):
    out = bytes(out)
    if len(out) != 3 + (len(data) + 2 + 15) // 16 * 16:
        fail("%s: %d bytes are sealed into %d" % (what, len(data), len(out)))
    if out[:3] != len(data).to_bytes(2, "little") + bytes([key_id]):
        fail("%s: header %s" % (what, hx(out[:3])))
    ex = ref.open_ex(out, key, key_id)
    if ex is None:
        fail("%s: an independent implementation refuses %s" % (what, hx(out)))
    if ex[0] != data:
        fail("%s: independent decryption gives %s, request was %s" % (what, hx(ex[0]), hx(data)))


def run_len(case, ctx):
    n, kname = case
    key = KEYS[kname]
    for kid in range(1, 8):
        for fill in FILL:
            ctx.trace()
            data = content(fill, n)
            c = context(key, kid)
            what = "length %d key %s id %d fill %s" % (n, kname, kid, fill)
            out = c.encrypt(data)
            check_sealed(out, data, key, kid, what)
            back = bytes(c.decrypt(ref.seal(data, key, kid)))
            if back != data:
                fail("%s: sealed by the device, decrypted to %s" % (what, hx(back)))
            back = bytes(c.decrypt(ref.seal(data, key, kid, pad=b"\x00")))
            if back != data:
                fail("%s: zero padded, decrypted to %s" % (what, hx(back)))
            back = bytes(c.decrypt(bytes(out)))
            if back != data:
                fail("%s: own output decrypted to %s" % (what, hx(back)))
            ctx.step(4)
            ctx.state(n % 16, n // 256, kid, kname, fill)
    ctx.outcome(n, kname)


@contextlib.contextmanager
def choices_of(pick):
    """Every random choice the code makes is made by pick(number of possibilities)."""
    def below(n):
        return pick(n) % n
    swaps = {"randint": lambda a, b: a + below(b - a + 1), "randrange": lambda a, b=None, step=1: (range(a) if b is None else range(a, b, step))[below(len(range(a) if b is None else range(a, b, step)))],
             "choice": lambda s: s[below(len(s))], "choices": lambda s, weights=None, *, cum_weights=None, k=1: [s[below(len(s))] for _ in range(k)],
             "randbytes": lambda n: bytes(below(256) for _ in range(n)), "getrandbits": lambda k: sum(below(2) << i for i in range(k)),
             "sample": lambda s, k: [s[(below(len(s)) + i) % len(s)] for i in range(k)]}
    saved = {n: getattr(random, n) for n in swaps}
    for n, f in swaps.items():
        setattr(random, n, f)
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(random, n, f)


def run_choices(case, ctx):
    """Every value of the padding bytes (all equal, or rising from it) and of the password filler."""
    v, up, lo, hi = case
    for n in range(lo, hi):
        for fill in ("00", "count"):
            ctx.trace()
            data = content(fill, n)
            it = itertools.count(v, up)
            with choices_of(lambda k: next(it)):
                c = context(KEYS["16"], 3)
                out = c.encrypt(data)
            what = "length %d fill %s, random choices %d step %d" % (n, fill, v, up)
            check_sealed(out, data, KEYS["16"], 3, what)
            if bytes(c.decrypt(bytes(out))) != data:
                fail("%s: own output decrypted wrongly" % what)
            ctx.step(2)
    if lo == 0:
        for enc in (False, True):
            for kind in ref.KINDS:
                it = itertools.count(v, up)
                with choices_of(lambda k: next(it)):
                    c = sut.conn(enc)
                    w = c.send(sut.request(kind))
                sut.check_request(kind, w, enc)
                ctx.trace()
    ctx.state("choices", v, up, lo)
    ctx.outcome(str(case))


def run_reuse(case, ctx):
    """One context used for a whole sequence of lengths keeps sealing and opening correctly."""
    first, kname = case
    key = KEYS[kname]
    c = context(key, 3)
    for second in range(0, 66):
        for n in (first, second):
            data = content("count", n)
            ctx.trace()
            check_sealed(c.encrypt(data), data, key, 3, "sequence %d,%d" % (first, second))
            if bytes(c.decrypt(ref.seal(data, key, 3))) != data:
                fail("sequence %d,%d: wrong decryption" % (first, second))
            ctx.step(2)
    ctx.state(first, kname, "reuse")
    ctx.outcome(first, kname)


def run_byte(case, ctx):
    """Every byte value at a position of a request of a given length."""
    n, pos = case
    key = KEYS["16"]
    c = context(key, 5)
    for b in range(256):
        ctx.trace()
        data = bytearray(content("count", n))
        data[pos] = b
        data = bytes(data)
        check_sealed(c.encrypt(data), data, key, 5, "length %d byte %d=%02x" % (n, pos, b))
        if bytes(c.decrypt(ref.seal(data, key, 5))) != data:
            fail("length %d byte %d=%02x: wrong decryption" % (n, pos, b))
        ctx.step(2)
    ctx.state(n, pos)
    ctx.outcome(n, pos)


# ------------------------------------------------------------------ through the connection
def assert_hidden(wire, pw, plain, what):
    """Neither the password anywhere nor four consecutive bytes of the request in what is sent as ciphertext."""
    raw = ref.unstuff(wire)
    secret = pw.encode("latin-1")
    if secret in raw or secret in wire:
        fail("%s: the password appears in clear in %s" % (what, hx(wire)))
    body = raw[12:-4][3:]
    for i in range(0, len(plain) - 3):
        if bytes(plain[i:i + 4]) in body:
            fail("%s: bytes %d.. of the request appear in clear in %s" % (what, i, hx(wire)))


def run_request(case, ctx):
    kind, kname, pw, variant = case
    key = KEYS[kname]
    over = VARIANTS[kind][variant]
    for kid in range(1, 8):
        for hist in (0, 1, 2):
            ctx.trace()
            c = sut.conn(True, key=key, key_id=kid, pw=pw)
            for _ in range(hist):       # earlier exchanges on the same session
                c.send(sut.request("time"))
                c.receive_data(sut.response_wire("time", sut.RESP["time"], True, key, kid))
                if sut.poll(c)[0] != "answer":
                    fail("exchange before failed")
            if hist == 2:               # a refused request, a device error
                c.send(sut.request("params", pw=pw))
                try:
                    c.send(sut.request("values", pw=pw))
                except Exception:
                    pass
                c.receive_data(sut.response_wire("params", b"\x01", True, key, kid))
                sut.poll(c)
            w = c.send(sut.request(kind, pw=pw, **over))
            what = "%s request, key %s id %d, after %d" % (kind, kname, kid, hist)
            f, data = sut.decode_request(w, True, key, kid)
            if f["service"] != ref.KINDS[kind]:
                fail("%s: service %02x" % (what, f["service"]))
            if not ref.matches(ref.request_layout(kind, pw, **dict(sut.REQ_ARGS[kind], **over)), data):
                fail("%s: payload %s" % (what, hx(data)))
            if len(f["data"]) != 3 + (len(data) + 17) // 16 * 16:
                fail("%s: sealed length %d" % (what, len(f["data"])))
            assert_hidden(w, pw, data, what)
            c.receive_data(sut.response_wire(kind, sut.RESP[kind], True, key, kid))
            r = sut.poll(c)
            if r[0] != "answer":
                fail("%s: answer not delivered: %s %r" % (what, r[0], r[1]))
            sut.check_answer(kind, sut.RESP[kind], r[1], what)
            ctx.step(2)
            ctx.state(kind, kname, kid, hist, variant)
    ctx.outcome(kind, kname, pw, variant)


VARIANTS = {
    "values": [{}], "time": [{}],
    "wtime": [{}, dict(time=dt.datetime(2099, 12, 31, 23, 59, 59))],
    "params": [{}, dict(object_count=0, buffer_length=0), dict(object_count=0x0D1B, buffer_length=65535)],
    "arch": [{}, dict(archive=10, oldest=0xFFFFFFFF, amount=65535), dict(archive=0, oldest=0, amount=0x1B0D)],
    "archt": [{}, dict(archive=8, amount=0x0D8D, time=dt.datetime(2000, 1, 1))],
}


def run_client(case, ctx):
    """Everything a client puts on the wire is of the encrypted type."""
    from mc.props.c07 import operate
    kind, kid, kname = case
    from elgas.client import ElgasClient
    key = KEYS[kname]
    tr = Script([sut.response_wire(kind, sut.RESP[kind] if kind != "params" else b"\x00\x00\x00\x00\x01", True, key, kid)])
    cl = ElgasClient(transport=tr, password=sut.PW, password_id=810, encryption_key=key, encryption_key_id=kid)
    cl.connect()
    operate(cl, kind)
    for w in tr.sent:
        f, data = sut.decode_request(w, True, key, kid)
        assert_hidden(w, sut.PW, data, "client %s" % kind)
        if f["service"] != ref.KINDS[kind]:
            fail("client %s: service" % kind)
        ctx.step()
    ctx.state("client", kind, kid, kname)
    ctx.outcome(kind, kid, kname)


def run_address(case, ctx):
    """Whatever the addresses and the password id are, requests leave encrypted and the answer comes back."""
    kind, a1, a2 = case
    for b1 in (0, 1, 0x0D, 0x8D1B, 0xFFFF):
        for b2 in (0, 1, 0x0D, 0xFF):
            for pid in (801, 849):
                ctx.trace()
                c = sut.conn(True, addr=(a1, a2, b1, b2), password_id=pid)
                w = c.send(sut.request(kind))
                what = "%s request from %d.%d to %d.%d" % (kind, b1, b2, a1, a2)
                f, data = sut.decode_request(w, True)
                if (f["dst"], f["src"]) != ((a1, a2), (b1, b2)):
                    fail("%s: addresses %r %r" % (what, f["dst"], f["src"]))
                if not ref.matches(ref.request_layout(kind, sut.PW, **sut.REQ_ARGS[kind]), data):
                    fail("%s: payload %s" % (what, hx(data)))
                assert_hidden(w, sut.PW, data, what)
                c.receive_data(sut.response_wire(kind, sut.RESP[kind], True))
                r = sut.poll(c)
                if r[0] != "answer":
                    fail("%s: answer not delivered: %s %r" % (what, r[0], r[1]))
                ctx.step()
    ctx.state(kind, a1, a2)
    ctx.outcome(kind, a1, a2)


def run_answer(case, ctx):
    """Device responses of every length, sealed independently, come out of the session unchanged."""
    kind, n = case
    base = sut.RESP[kind]
    for kid in (1, 3, 7):
        for fill in FILL:
            for tail in (b"", b"\x00", b"\x0d", b"\xff"):
                ctx.trace()
                payload = base + content(fill, n)
                payload = payload[:len(payload) - len(tail)] + tail if n >= len(tail) else payload
                c = sut.conn(True, key_id=kid)
                c.send(sut.request(kind))
                c.receive_data(sut.response_wire(kind, payload, True, key_id=kid))
                r = sut.poll(c)
                if r[0] != "answer":
                    fail("%s sealed response of %d bytes: %s %r" % (kind, len(payload), r[0], r[1]))
                sut.check_answer(kind, payload, r[1])
                ctx.step()
                ctx.state(kind, len(payload) % 16, kid, fill, tail)
    ctx.outcome(kind, n)


def run_longest(case, ctx):
    """The longest sealed responses there can be."""
    kind, n = case
    payload = (sut.RESP[kind] + content(FILL[0], 66000))[:n]
    for kid in (1, 7):
        ctx.trace()
        c = sut.conn(True, key_id=kid)
        c.send(sut.request(kind))
        c.receive_data(sut.response_wire(kind, payload, True, key_id=kid))
        r = sut.poll(c)
        if r[0] != "answer":
            fail("%s sealed response of %d bytes: %s %r" % (kind, n, r[0], r[1]))
        sut.check_answer(kind, payload, r[1])
        ctx.step()
        ctx.state(kind, n, kid)
    ctx.outcome(kind, n)


def run_misfit(case, ctx):
    """A key of a wrong length or without key id never leads to anything being sent in clear."""
    from elgas import connection
    from elgas.client import ElgasClient
    from mc.props.c07 import operate
    kind, n, kid = case
    key = content("count", n)
    what = "key of %d bytes with key id %s" % (n, kid)
    ctx.trace(2)
    try:
        c = connection.ElgasConnection(source_address_1=0, source_address_2=0, destination_address_1=0, destination_address_2=0, password=sut.PW,
                                       password_id=810, encryption_key=key, encryption_key_id=kid)
    except Exception:
        c = None
    for _ in range(2 if c else 0):
        try:
            w = bytes(c.send(sut.request(kind)))
        except Exception:
            continue
        if ref.unstuff(w)[2] != 0x85:
            fail("%s: the connection sends %s" % (what, hx(w)))
        ctx.step()
    tr = Script([sut.response_wire(kind, sut.RESP[kind] if kind != "params" else b"\x00\x00\x00\x00\x01")] * 2)
    try:
        cl = ElgasClient(transport=tr, password=sut.PW, password_id=810, encryption_key=key, encryption_key_id=kid)
    except Exception:
        cl = None
    for _ in range(2 if cl else 0):
        try:
            operate(cl, kind)
        except Exception:
            pass
        ctx.step()
    for w in tr.sent:
        if ref.unstuff(w)[2] != 0x85:
            fail("%s: the client sends %s" % (what, hx(w)))
    ctx.state("misfit", kind, n, kid)
    ctx.outcome(str(case))


def run_keys(case, ctx):
    """Every value of a byte of the key, the others taken from several keys."""
    pos, kname, kid = case
    for b in range(256):
        key = bytearray(KEYS[kname])
        key[pos] = b
        key = bytes(key)
        ctx.trace()
        what = "key %s id %d" % (key.hex(), kid)
        c = sut.conn(True, key=key, key_id=kid)
        w = c.send(sut.request("arch"))
        f, data = sut.decode_request(w, True, key, kid)
        if not ref.matches(ref.request_layout("arch", sut.PW, **sut.REQ_ARGS["arch"]), data):
            fail("%s: the request holds %s" % (what, data.hex()))
        c.receive_data(sut.response_wire("arch", sut.RESP["arch"], True, key, kid))
        r = sut.poll(c)
        if r[0] != "answer":
            fail("%s: no answer (%s %r)" % (what, r[0], r[1]))
        sut.check_answer("arch", sut.RESP["arch"], r[1], what)
        ctx.state("key", pos, b, kname)
        ctx.step()
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"
    top = 700 if q else 4096

    def lens():
        for n in (1023, 1024, 2047, 2048, 4080, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 40000, 65000):
            yield [n, "16"]
        for n in range(0, top + 1):
            for kname in ("16",) if q and n > 130 else ("16", "special", "high") if n > 130 else KEYS:
                yield [n, kname]

    def choices():
        for up in (0, 1) if q else (0, 1, 7, 125):
            for v in range(0, 126):
                for lo in (0, 9, 18) if q else (0, 9, 18, 27, 36):
                    yield [v, up, lo, lo + 9]

    def reuse():
        for n in range(0, 66):
            for kname in ("16", "high"):
                yield [n, kname]

    def byte():
        for n in (1, 2, 13, 14, 15, 16, 17, 29, 30, 31, 32) if q else range(1, 66):
            for pos in range(n):
                yield [n, pos]

    def reqs():
        for kind in ref.KINDS:
            for v in range(len(VARIANTS[kind])):
                for kname in KEYS:
                    for pw in ("secpw7", "\xe9\xff\x0d\x1b\x8d\x00", "zzzzzz"):
                        yield [kind, kname, pw, v]

    def clients():
        for kind in ref.KINDS:
            for kid in range(1, 8):
                for kname in KEYS:
                    yield [kind, kid, kname]

    def address():
        edge = (0, 1, 0x0D, 0x1B, 0x8D, 0xFF, 0x100, 0x0D1B, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF)
        for kind in ref.KINDS:
            for a1 in edge if q else sorted(set(edge) | set(range(0, 65536, 97))):
                for a2 in (0, 1, 0x0D, 0x1B, 0x8D, 0xFE, 0xFF):
                    yield [kind, a1, a2]

    def answers():
        for kind in ("time", "values", "params", "arch", "archt"):
            for n in range(0, 50 if q else 400):
                yield [kind, n]

    def longest():
        sizes = {1 << k for k in range(8, 16)} | {(1 << k) - 1 for k in range(8, 16)} | {(1 << k) + 1 for k in range(8, 16)} | {k << 8 for k in range(0xF8, 0x100)}
        sizes |= set(range(65279, 65283)) | set(range(65470, 65503))
        for kind in ("params",) if q else ("params", "arch", "values"):
            for n in sorted(sizes if q else sizes | set(range(1000, 65500, 250))):
                yield [kind, n]

    def misfit():
        for kind in ref.KINDS:
            for n in range(1, 68):
                yield [kind, n, None]
                if n != 16:
                    yield [kind, n, 3]

    def keys():
        for pos in range(16):
            for i, kname in enumerate(KEYS):
                yield [pos, kname, (pos + i) % 7 + 1]

    return [
        Family("keys", keys, run_keys, "every value of every byte of the key, in five keys"),
        Family("clocks", at_paces(clients), timed(run_client), "every client operation, the clocks of this computer running at ten paces"),
        Family("misfit", misfit, run_misfit, "keys of wrong lengths or without key id"),
        Family("requests", reqs, run_request, "every request kind x key x key id x password x session history"),
        Family("client", clients, run_client, "every client operation x key x key id"),
        Family("lengths", lens, run_len, "every length 0..%d x key ids 1-7 x contents" % top),
        Family("choices", choices, run_choices, "every value of the padding and filler bytes"),
        Family("reuse", reuse, run_reuse, "all pairs of lengths 0..65 on one context"),
        Family("bytes", byte, run_byte, "every byte value at every position"),
        Family("address", address, run_address, "border addresses of both sides x request kind x password id"),
        Family("longest", longest, run_longest, "sealed responses up to the longest a frame can hold"),
        Family("answers", answers, run_answer, "sealed responses of every length"),
    ]
