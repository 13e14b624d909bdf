"""C23 tampered or wrongly keyed encrypted responses are never delivered."""
import itertools

from mc import ref, session, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C23", "fault_enumeration"
RULE = ("a case is a sealed response (kind, payload length, content) x one class of tampering at one place (or a block of places); the outer frame is "
        "always intact; the real session must deliver neither an answer nor a device error from it and must deliver the genuine "
        "response afterwards; a state is (tampering, place class, result)")
ASSUMPTIONS = ["the seal ends in a 16-bit CRC, so some alterations are undetectable in principle: those an independent implementation accepts "
               "must be delivered exactly as that implementation reads them (their number is reported as outcomes 'collision')"]


def payload(kind, n):
    """A decodable payload of kind with n bytes, or None."""
    if kind == "deverr":
        return b"\x01" if n == 1 else None
    if kind == "wtime":
        return b"\x00" * n if n else None
    base = {"time": sut.TIMEB + b"\x00", "params": b"\x01\x00\x02\x00\x01", "arch": b"\x01\x0d\x1b\x8d\x00", "archt": b"\x03\x01\x02\x03\x04",
            "values": sut.TIMEB + bytes(range(19))}[kind]
    if n < len(base):
        return None
    return base + bytes((i * 37 + 11) & 255 for i in range(n - len(base)))


def play(kind, bad, ctx, tag, service=None, key=sut.KEY, key_id=sut.KEY_ID, ftype=ref.ENC_RESPONSE):
    """Deliver the tampered payload to a waiting session, then the genuine response."""
    k = "time" if kind == "deverr" else kind
    ctx.trace()
    c = sut.conn(True, key=key, key_id=key_id)
    c.send(sut.request(k))
    c.receive_data(ref.wire(ftype, ref.KINDS[k] if service is None else service, bad))
    opened = ref.open_sealed(bad, key, key_id)
    results = session.drain(c)
    ctx.step(2)
    what = "%s %s payload %s" % (kind, tag, hx(bad)[:160])
    if opened is not None:
        # the CRC cannot tell: whatever is delivered must be what the seal now says
        for r, v in results:
            if r == "answer":
                sut.check_answer(k, opened, v, what)
        ctx.outcome("collision", tag)
        return True
    for r, v in results:
        if r == "answer":
            fail("%s: delivered as %r" % (what, v))
        if r == "error" and session.device_error(v):
            fail("%s: reported as device error %r" % (what, v))
    ctx.state(kind, tag, tuple(r for r, v in results))
    c.receive_data(ref.wire(ref.ENC_RESPONSE, ref.KINDS[k], ref.seal(sut.RESP[k], key, key_id)))
    r = sut.poll(c)
    if r[0] != "answer":
        fail("%s: the genuine response is not delivered afterwards: %s %r" % (what, r[0], r[1]))
    sut.check_answer(k, sut.RESP[k], r[1], what)
    return False


def run_flips(case, ctx):
    kind, n, pad = case
    s = ref.seal(payload(kind, n), sut.KEY, sut.KEY_ID, un(pad))
    for i in range(len(s) * 8):
        b = bytearray(s)
        b[i // 8] ^= 1 << i % 8
        play(kind, bytes(b), ctx, "bit flip in " + ("length" if i < 16 else "key id" if i < 24 else "ciphertext"))
    ctx.outcome(str(case))


def run_long(case, ctx):
    """A change in every byte of long sealed payloads; blocks exchanged, missing or doubled at every place."""
    kind, n, lo, k = case
    s = ref.seal(payload(kind, n), sut.KEY, sut.KEY_ID)
    for i in range(lo, min(lo + k, len(s))):
        for m in (1, 0x80):
            b = bytearray(s)
            b[i] ^= m
            play(kind, bytes(b), ctx, "change in a long payload")
    for j in range(3 + lo // 16 * 16, min(3 + (lo + k) // 16 * 16, len(s) - 16), 16):
        play(kind, s[:j] + s[j + 16:], ctx, "block lost")
        play(kind, s[:j] + s[j:j + 16] + s[j:], ctx, "block doubled")
        play(kind, s[:j] + s[j + 16:j + 32] + s[j:j + 16] + s[j + 32:], ctx, "blocks exchanged")
    ctx.outcome(str(case))


def run_bytes(case, ctx):
    kind, n, pos = case
    s = ref.seal(payload(kind, n), sut.KEY, sut.KEY_ID)
    if pos >= len(s):
        return
    for v in range(256):
        b = bytearray(s)
        if b[pos] != v:
            b[pos] = v
            play(kind, bytes(b), ctx, "byte change")
    ctx.outcome(str(case))


def run_header(case, ctx):
    """Another length header, key id in the header, or both; the ciphertext is the genuine one or sealed for that header."""
    kind, n, what, lo = case
    p = payload(kind, n)
    s = ref.seal(p, sut.KEY, sut.KEY_ID)
    true_len = int.from_bytes(s[:2], "little")
    for v in range(lo, lo + 256):
        if what == "length":
            if v != true_len:
                play(kind, v.to_bytes(2, "little") + s[2:], ctx, "length header")
                play(kind, ref.seal(p, sut.KEY, sut.KEY_ID, length=v), ctx, "length header, CRC agrees")
        elif what == "keyid":
            if v & 255 != sut.KEY_ID:
                play(kind, s[:2] + bytes([v & 255]) + s[3:], ctx, "key id header")
                play(kind, ref.seal(p, sut.KEY, v & 255), ctx, "sealed for another key id")
    ctx.outcome(str(case))


KEYS = [bytes(16), b"\xff" * 16, bytes(range(16)), bytes(reversed(sut.KEY)), sut.KEY[:-1] + bytes([sut.KEY[-1] ^ 1]), bytes([sut.KEY[0] ^ 0x80]) + sut.KEY[1:]]


def run_keys(case, ctx):
    kind, n, ki, kid = case
    p = payload(kind, n)
    if kid is None:
        play(kind, ref.seal(p, KEYS[ki], sut.KEY_ID), ctx, "other key")
        play(kind, ref.seal(p, sut.KEY, sut.KEY_ID), ctx, "other key at the receiver", key=KEYS[ki])
    else:
        play(kind, ref.seal(p, KEYS[ki], kid), ctx, "other key and id")
        play(kind, ref.seal(p, KEYS[ki], kid, header_id=sut.KEY_ID), ctx, "other key, right id in the header")
        play(kind, ref.seal(p, sut.KEY, kid, header_id=kid), ctx, "right key, other id") if kid != sut.KEY_ID else None
    ctx.outcome(str(case))


def run_keybits(case, ctx):
    """Every key that differs in one bit."""
    kind, n = case
    p = payload(kind, n)
    for i in range(128):
        k = bytearray(sut.KEY)
        k[i // 8] ^= 1 << i % 8
        play(kind, ref.seal(p, bytes(k), sut.KEY_ID), ctx, "key differing in one bit")
    ctx.outcome(str(case))


def run_blocks(case, ctx):
    """Ciphertext blocks removed, repeated, exchanged, or taken from another response; cut anywhere."""
    kind, n = case
    s = ref.seal(payload(kind, n), sut.KEY, sut.KEY_ID)
    o = ref.seal(bytes(reversed(payload(kind, n))), sut.KEY, sut.KEY_ID)
    h, blocks = s[:3], [s[i:i + 16] for i in range(3, len(s), 16)]
    other = [o[i:i + 16] for i in range(3, len(o), 16)]
    m = len(blocks)
    seen = {bytes(s)}
    for k in range(0, min(m + 1, 5) + 1):
        for pick in itertools.product(range(-min(m, 2), m), repeat=k) if m ** k < 700 else itertools.permutations(range(m), k):
            b = h + b"".join(blocks[i] if i >= 0 else other[i] for i in pick)
            if b not in seen:
                seen.add(b)
                play(kind, b, ctx, "blocks rearranged")
    for i in range(m):
        for b in (h + b"".join(blocks[:i] + blocks[i + 1:]), h + b"".join(blocks[:i + 1] + blocks[i:]), h + b"".join(blocks[:i] + [bytes(16)] + blocks[i + 1:]),
                  h + b"".join(blocks[:i] + [sut.KEY] + blocks[i + 1:])):
            if b not in seen:
                seen.add(b)
                play(kind, b, ctx, "block removed, repeated or replaced")
    for i in range(len(s)):
        for b in (s[:i], s[i:], s[:i] + b"\x00" + s[i:], s + s[:i]):
            if b not in seen:
                seen.add(b)
                play(kind, b, ctx, "cut short or extended")
    ctx.outcome(str(case))


def run_crc(case, ctx):
    """Every other inner CRC; one session sees 256 of them in a row and then the genuine response."""
    kind, n, hi = case
    p = payload(kind, n)
    good = ref.seal_plain(p, sut.KEY_ID)[-2:]
    k = "time" if kind == "deverr" else kind
    c = sut.conn(True)
    c.send(sut.request(k))
    for lo in range(256):
        crc = bytes([hi, lo])
        if crc == good:
            continue
        ctx.trace()
        ctx.step()
        c.receive_data(ref.wire(ref.ENC_RESPONSE, ref.KINDS[k], ref.seal(p, sut.KEY, sut.KEY_ID, crc=crc)))
        r = sut.poll(c)
        if r[0] == "answer" or r[0] == "error" and session.device_error(r[1]):
            fail("%s with inner crc %s instead of %s: %s %r" % (kind, crc.hex(), good.hex(), r[0], r[1]))
        ctx.state(kind, "crc", hi, r[0])
    c.receive_data(ref.wire(ref.ENC_RESPONSE, ref.KINDS[k], ref.seal(sut.RESP[k], sut.KEY, sut.KEY_ID)))
    r = sut.poll(c)
    if r[0] != "answer":
        fail("%s: the genuine response is not delivered after 255 with wrong crc: %s %r" % (kind, r[0], r[1]))
    sut.check_answer(k, sut.RESP[k], r[1])
    ctx.outcome(str(case))


def run_plain(case, ctx):
    """A payload that is not sealed at all in a frame of the encrypted type."""
    kind, n = case
    p = payload(kind, n)
    play(kind, p, ctx, "not sealed")
    play(kind, len(p).to_bytes(2, "little") + bytes([sut.KEY_ID]) + p, ctx, "header but not encrypted")
    body = ref.seal_plain(p, sut.KEY_ID, b"\x5a")
    play(kind, len(p).to_bytes(2, "little") + bytes([sut.KEY_ID]) + body, ctx, "inner CRC but not encrypted")
    ctx.outcome(str(case))


def run_double(case, ctx):
    """Two bits flipped within the header and one block."""
    kind, n, i = case
    s = ref.seal(payload(kind, n), sut.KEY, sut.KEY_ID)
    for j in range(i + 1, len(s) * 8):
        b = bytearray(s)
        b[i // 8] ^= 1 << i % 8
        b[j // 8] ^= 1 << j % 8
        play(kind, bytes(b), ctx, "two bit flips")
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"
    kinds = ["time", "params", "arch", "archt", "values", "wtime", "deverr"]

    def lens(lim):
        for kind in kinds:
            for n in range(0, lim):
                if payload(kind, n) is not None:
                    yield kind, n

    def flips():
        for kind, n in lens(36 if q else 80):
            if not q or n % 3 == 1 or 9 <= n <= 17 or kind == "deverr":
                for pad in ("5a", "00") if not q else ("5a",):
                    yield [kind, n, pad]

    def bytes_():
        for kind, n in (("time", 9), ("params", 20), ("deverr", 1), ("wtime", 1), ("arch", 14)) if q else lens(48):
            for pos in range(0, n + 3 + 18, 1):
                yield [kind, n, pos]

    def header():
        for kind, n in (("time", 9), ("deverr", 1), ("params", 14), ("wtime", 1)) if q else (("time", 9), ("deverr", 1), ("params", 14), ("wtime", 1), ("values", 30), ("arch", 29), ("archt", 45)):
            yield [kind, n, "keyid", 0]
            for lo in range(0, 65536, 256 * (17 if q else 1)):
                yield [kind, n, "length", lo]
            yield [kind, n, "length", 0] if q else [kind, n, "length", 256]

    def keys():
        for kind, n in lens(40 if q else 100):
            for ki in range(len(KEYS)):
                yield [kind, n, ki, None]
                if n % (11 if q else 3) == 0 or kind == "deverr":
                    for kid in range(0, 256, 51 if q else 15):
                        yield [kind, n, ki, kid]

    def keybits():
        for kind, n in lens(40 if q else 100):
            if not q or n in (1, 9, 14, 30):
                yield [kind, n]

    def blocks():
        for kind, n in lens(50 if q else 100):
            if not q or n in (1, 9, 13, 14, 15, 29, 30, 31, 45, 46):
                yield [kind, n]

    def crc():
        for kind, n in (("deverr", 1), ("time", 9)) if q else (("deverr", 1), ("time", 9), ("params", 14), ("wtime", 1), ("values", 29)):
            for hi in range(256):
                yield [kind, n, hi]

    def plain():
        for kind, n in lens(70 if q else 200):
            yield [kind, n]

    def long():
        for kind, n in (("params", 300), ("arch", 1100)) if q else (("params", 300), ("arch", 1100), ("archt", 2500), ("values", 600)):
            for lo in range(0, n + 32, 64):
                yield [kind, n, lo, 64]

    def double():
        for kind, n in (("time", 9),) if q else (("time", 9), ("deverr", 1), ("params", 14), ("arch", 15)):
            for i in range(0, (3 + 32) * 8, 9 if q else 1):
                yield [kind, n, i]

    def blocks1():
        for kind, n in lens(50):
            if n in (1, 14, 15, 30):
                yield [kind, n]

    return [
        Family("clocks", at_paces(blocks1), timed(run_blocks), "blocks removed, repeated, exchanged, the clocks of this computer running at ten paces"),
        Family("flips", flips, run_flips, "every single-bit change of header and ciphertext"),
        Family("bytes", bytes_, run_bytes, "every value of every byte"),
        Family("header", header, run_header, "length headers and key ids"),
        Family("keys", keys, run_keys, "other keys and key ids"),
        Family("keybits", keybits, run_keybits, "all 128 keys at distance one"),
        Family("blocks", blocks, run_blocks, "blocks removed, repeated, exchanged, replaced; every truncation"),
        Family("crc", crc, run_crc, "all 65535 other inner CRCs"),
        Family("plain", plain, run_plain, "unsealed payloads in encrypted frames"),
        Family("long", long, run_long, "changes in every byte, lost, doubled and exchanged blocks of long payloads"),
        Family("double", double, run_double, "two bit flips"),
    ]
