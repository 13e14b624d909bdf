"""C22 whatever bytes arrive, polling answers, waits or raises a library error."""
import itertools

from mc import ref, session, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C22", "model_checking"
RULE = ("a case is a block of byte streams x session state (idle or waiting for one of six responses) x key configured or not; each stream is fed to a "
        "fresh real session and polled until more data is wanted; every result must be an answer the stream really encodes, a wait "
        "or a library error; then the stream is terminated and the genuine exchange must succeed; a state is (session state, key, "
        "meaning of the stream, results)")
ASSUMPTIONS = ["the genuine response is required only once the junk before it has been terminated by 0D",
               "a stream that answers the request, or carries a device error for it, ends the exchange"]
STATES = [None] + list(ref.KINDS)


def follow(c, kind, enc, ctx, what):
    w = c.send(sut.request(kind)) if kind is not None else None
    return w


def play(stream, kind, enc, ctx, chunk=0, tag=""):
    """Feed, poll, then the genuine exchange."""
    c = sut.conn(enc)
    if kind is not None:
        c.send(sut.request(kind))
    what = "%s%s, state %s, %s key, stream %s" % (tag, "chunks of %d" % chunk if chunk else "", kind, "with" if enc else "without", hx(stream)[:120])
    ctx.trace()
    results = []
    parts = [stream] if not chunk else [stream[i:i + chunk] for i in range(0, len(stream), chunk)]
    limit = 3 * stream.count(b"\x0d") + 4
    for p in parts:
        c.receive_data(p)
        for _ in range(limit):
            r = sut.poll(c)
            ctx.step()
            if r[0] == "need":
                break
            results.append(r)
        else:
            fail("%s: polling does not come to an end" % what)
    # what came out must be in the stream
    waiting = kind
    meanings = []
    for seg in ref.segments(stream)[0]:
        f = ref.parse_frame(ref.unstuff(seg))
        meanings.append(session.interpret(seg, waiting, enc)[0])
    done = False
    for r, v in results:
        if r == "answer":
            if done or kind is None:
                fail("%s: unexpected answer %r" % (what, v))
            good = [m for m in (session.interpret(seg, kind, enc) for seg in ref.segments(stream)[0]) if m[0] in ("answer", "odd")]
            if not good:
                fail("%s: answer %r made up from unusable bytes" % (what, v))
            for g in good:
                if g[0] == "odd":
                    continue
                try:
                    sut.check_answer(kind, g[2], v, what)
                    break
                except Exception:
                    continue
            else:
                fail("%s: answer %r is none of those in the stream" % (what, v))
            done = True
        elif session.device_error(v):
            done = True
    ctx.state(kind, enc, tuple(meanings), tuple(r if r == "need" else (r, type(v).__name__) for r, v in results))
    # the genuine exchange
    if not stream.endswith(b"\x0d") and stream:
        c.receive_data(b"\x0d")
        for _ in range(4):
            r = sut.poll(c)
            if r[0] == "need":
                break
            if r[0] == "answer":
                if done or kind is None or session.interpret(ref.segments(stream + b"\x0d")[0][-1], kind, enc)[0] not in ("answer", "odd"):
                    fail("%s: unexpected answer %r" % (what, r[1]))
                done = True
            elif session.device_error(r[1]):
                done = True
        else:
            fail("%s: polling does not come to an end" % what)
    nxt = kind
    if kind is None or done:
        nxt = kind or "time"
        w = c.send(sut.request(nxt))
        sut.check_request(nxt, w, enc)
    c.receive_data(sut.response_wire(nxt, sut.RESP[nxt], enc))
    r = sut.poll(c)
    ctx.step(2)
    if r[0] != "answer":
        fail("%s: afterwards the genuine response gives %s %r" % (what, r[0], r[1]))
    sut.check_answer(nxt, sut.RESP[nxt], r[1], what + ": afterwards")
    return results


SYM = bytes([0x0D, 0x1B, 0x02, 0xFE, 0x86, 0x87, 0x0E, 0x0F, 0x8D, 0x00, 0x6C, 0xFF, 0x84])


def run_strings(case, ctx):
    kind, enc, prefix, n = case
    for t in itertools.product(SYM, repeat=n):
        play(un(prefix) + bytes(t), kind, enc, ctx)
    ctx.outcome(str(case))


def run_codes(case, ctx):
    """Intact frame of one type, every service code, several payloads."""
    kind, enc, ftype, payloads = case
    for service in range(256):
        for p in payloads:
            play(ref.wire(ftype, service, un(p)), kind, enc, ctx)
    ctx.outcome(str(case)[:80])


FILL = {"00": lambda n: bytes(n), "ff": lambda n: b"\xff" * n, "seq": lambda n: bytes(range(1, 1 + n)) if n < 255 else bytes(i & 255 for i in range(1, n + 1)),
        "bcd": lambda n: (sut.TIMEB + b"\x01\x02\x03\x04" * (n // 4 + 1))[:n], "0d": lambda n: b"\x0d" * n, "99": lambda n: b"\x99" * n,
        "01": lambda n: b"\x01" * n}


def run_lengths(case, ctx):
    """Payloads of every length for the six services, plain, raw in an encrypted frame, and properly sealed."""
    kind, enc, fill, lo, hi = case
    for n in range(lo, hi):
        p = FILL[fill](n)
        for k in ref.KINDS:
            play(sut.response_wire(k, p), kind, enc, ctx)
            play(ref.wire(ref.ENC_RESPONSE, ref.KINDS[k], p), kind, enc, ctx)
            if n % 4 == 1 or n < 20:
                play(sut.response_wire(k, p, True), kind, enc, ctx)
    ctx.outcome(str(case))


def run_values(case, ctx):
    """Every value of one payload byte of a valid response (outer frame intact)."""
    kind, enc, sealed, pos = case
    p = bytearray(sut.RESP[kind])
    for v in range(256):
        p[pos] = v
        play(sut.response_wire(kind, bytes(p), sealed), kind, enc, ctx)
    ctx.outcome(str(case))


def run_sealedbytes(case, ctx):
    """Every value of one byte of a sealed payload (outer frame intact)."""
    kind, enc, pos = case
    sealed = bytearray(ref.seal(sut.RESP[kind], sut.KEY, sut.KEY_ID))
    if pos >= len(sealed):
        return
    for v in range(256):
        s = bytearray(sealed)
        s[pos] = v
        play(ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], bytes(s)), kind, enc, ctx)
    ctx.outcome(str(case))


def run_header(case, ctx):
    """All 16-bit length headers inside the sealed payload / in the frame (with matching redundancy)."""
    where, kind, enc, hi = case
    for lo in range(256):
        n = lo + 256 * hi
        if where == "inner":
            w = ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(sut.RESP[kind], sut.KEY, sut.KEY_ID, length=n))
        else:
            w = ref.stuff(ref.frame(ref.RESPONSE, ref.KINDS[kind], sut.RESP[kind], length=n))
        play(w, kind, enc, ctx)
    ctx.outcome(str(case))


def run_cipherlen(case, ctx):
    """Encrypted payloads whose ciphertext has every length and whose plain text ends inside CRC, padding or nowhere."""
    kind, enc, n = case
    for hid in (sut.KEY_ID, 0, 1, 255):
        for length in (0, 1, n, max(0, n - 3), n + 1, 16, 65535):
            body = length.to_bytes(2, "little") + bytes([hid]) + bytes(range(n))
            play(ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], body), kind, enc, ctx)
            body = bytes([hid]) + length.to_bytes(2, "big") + b"\xa5" * n
            play(ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], body), kind, enc, ctx)
    ctx.outcome(str(case))


def run_runts(case, ctx):
    """Frames too short to hold their fixed fields, with redundancy bytes that agree, cut anywhere in front."""
    kind, enc, ftype = case
    full = ref.frame(ftype, ref.KINDS[kind or "time"], b"")
    for n in range(len(full) + 1):
        for body in (full[:n], full[len(full) - n:], full[:n // 2] + full[len(full) - (n - n // 2):]):
            for red in (True, False):
                b = body
                if red and n > 4:
                    b = full[:1] + body[1:max(1, n - 4)]
                    b = b + ref.redundancy(b[1:]) + b"\x0d"
                b = b if b.endswith(b"\x0d") else b + b"\x0d"
                play(ref.stuff(b), kind, enc, ctx)
                play(b, kind, enc, ctx)
                for chunk in (1, 2, 3):
                    play(b, kind, enc, ctx, chunk)
    ctx.outcome(str(case))


ALPHABET = None


def alphabet(enc):
    t = sut.RESP["time"]
    a = [b"\x0d", b"\x02\x0d", b"\x02\xfe\x86\x6c\x0d", b"\x1b\x0d", b"\x1b", b"\x02\xfe\x86", ref.wire(0x84, 0x6C, b""), ref.wire(0x85, 0x6C, b"abc"),
         sut.response_wire("time", t), sut.response_wire("time", t, True), sut.response_wire("time", b""), sut.response_wire("time", b"\x00"),
         sut.response_wire("time", b"\x01"), sut.response_wire("time", b"\x80", True), sut.response_wire("time", b"\xff" * 9),
         sut.response_wire("wtime", b""), sut.response_wire("params", b"\x00"), sut.response_wire("params", b"\x00\x00\x00\x00", True),
         sut.response_wire("arch", b"\x63\x00\x00\x00\x00"), sut.response_wire("values", b"\x01"), ref.wire(0x86, 0x99, t), ref.wire(0x87, 0x6C, b"\x00" * 19),
         ref.wire(0x87, 0x6C, b"")]
    return a


def run_multi(case, ctx):
    kind, enc, first = case[:3]
    a = alphabet(enc)
    for rest in itertools.product(range(len(a)), repeat=case[3] - len(first)):
        s = b"".join(a[i] for i in list(first) + list(rest))
        play(s, kind, enc, ctx)
        if len(rest) < 2:
            for chunk in (1, 7):
                play(s, kind, enc, ctx, chunk)
    ctx.outcome(str(case))


def run_crowds(case, ctx):
    """The same segments very many times over, at once or in pieces; then one very long segment."""
    kind, enc, idx, n, chunk = case
    a = alphabet(enc)
    play(b"".join(a[i] for i in idx) * n, kind, enc, ctx, chunk, "%d times segments %s, " % (n, idx))
    ctx.outcome(str(case))


GIANTS = ["1b0e", "1b", "1b0f", "1b1b", "1b00", "00", "02", "0286", "02fe867a", "ff", "41", "8d"]


def run_giants(case, ctx):
    """One segment of up to 64 KiB (thorough 1 MiB): a unit over and over, bare, behind a header, as the payload of an intact frame, sealed."""
    kind, enc, unit, n = case
    u = un(unit) * (n // (len(unit) // 2))
    what = "%d bytes of %s, " % (len(u), unit)
    play(u + b"\x0d", kind, enc, ctx, 0, what)
    play(b"\x02\xfe\x86\x6c" + u + b"\x0d", kind, enc, ctx, 0, what + "behind a header, ")
    if n <= 65000:
        for k in {kind or "time", "params"}:
            play(sut.response_wire(k, u[:64000]), kind, enc, ctx, 0, what + "in a %s frame, " % k)
            play(sut.response_wire(k, sut.RESP[k] + u[:64000]), kind, enc, ctx, 0, what + "behind the payload of a %s frame, " % k)
            play(ref.wire(ref.ENC_RESPONSE, ref.KINDS[k], u[:64000]), kind, enc, ctx, 0, what + "in an encrypted %s frame, " % k)
            if n <= 5000:
                play(sut.response_wire(k, u, True), kind, enc, ctx, 0, what + "sealed in a %s frame, " % k)
    if n <= 5000:
        play(u + b"\x0d", kind, enc, ctx, 1000, what)
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"
    some = [None, "time", "params"]

    def strings():
        for enc in (False, True):
            for kind in (some if q else STATES):
                for n in range(0, 3):
                    yield [kind, enc, "", n]
                for pre in itertools.product(SYM, repeat=1 if q else 2):
                    yield [kind, enc, hx(bytes(pre)), 2 if q else 3]
                for pre in itertools.product(SYM, repeat=2):
                    if q and kind == "time":
                        yield [kind, enc, hx(bytes(pre)), 2]
                    yield [kind, enc, "02fe" + hx(bytes(pre)), 1 if q else 2]

    def codes():
        pl = ["", "00", "01", "000000", hx(sut.RESP["time"]), hx(sut.RESP["params"])]
        for enc in (False, True):
            for kind in STATES:
                for ftype in (0x84, 0x85, 0x86, 0x87) if q else range(256):
                    yield [kind, enc, ftype, pl if not q or ftype >= 0x86 else pl[:2]]
                if q and kind in some:
                    for ftype in list(range(0, 256, 5)) + [0x88, 0x8D, 0x0D, 0x1B]:
                        yield [kind, enc, ftype, ["00"]]

    def lengths():
        for enc in (False, True):
            for kind in STATES:
                for fill in FILL:
                    for lo in range(0, 48 if q else 120, 6):
                        yield [kind, enc, fill, lo, lo + 6]

    def values():
        for enc in (False, True):
            for kind in ref.KINDS:
                for sealed in (False, True):
                    for pos in range(len(sut.RESP[kind])):
                        yield [kind, enc, sealed, pos]

    def sealedbytes():
        for enc in (True,) if q else (False, True):
            for kind in ref.KINDS:
                for pos in range(64):
                    yield [kind, enc, pos]

    def header():
        for where in ("inner", "outer"):
            for kind in ("time", "params") if q else ref.KINDS:
                for hi in range(0, 256, 37 if q else 1):
                    yield [where, kind, True, hi]

    def cipherlen():
        for enc in (False, True):
            for kind in ("time", "wtime") if q else ref.KINDS:
                for n in range(0, 70):
                    yield [kind, enc, n]

    def runts():
        for enc in (False, True):
            for kind in STATES:
                for ftype in (0x86, 0x87, 0x84):
                    yield [kind, enc, ftype]

    def multi():
        for enc in (False, True):
            n = len(alphabet(enc))
            for kind in (some if q else STATES):
                for i in range(n):
                    yield [kind, enc, [i], 2]
                    if not q or kind == "time":
                        for j in range(n):
                            yield [kind, enc, [i, j], 3]

    def crowds():
        for enc in (False, True):
            n = len(alphabet(enc))
            for kind in some:
                for times in (20, 70, 300, 1100) if q else (20, 70, 300, 1100, 12000):
                    for i in range(n):
                        yield [kind, enc, [i], times, 0]
                        if times < 300 or not q:
                            yield [kind, enc, [i], times, 50]
                for i in range(n):
                    for j in range(n):
                        if i != j:
                            yield [kind, enc, [i, j], 40 if q else 300, 0]

    def giants():
        for enc in (False, True):
            for kind in (some if q else STATES):
                for u in GIANTS:
                    for n in (500, 1500, 5000, 30000, 64000) if q else (500, 1500, 5000, 30000, 64000, 70000, 300000, 1 << 20):
                        yield [kind, enc, u, n]

    def multi1():
        for enc in (False, True):
            for kind in STATES:
                for i in range(len(alphabet(enc))):
                    yield [kind, enc, [i], 1 if q else 2]

    return [
        Family("clocks", at_paces(multi1), timed(run_multi), "one (thorough up to two) segments, the clocks of this computer running at ten paces"),
        Family("giants", giants, run_giants, "one segment of up to 64000 (thorough 1 MiB) bytes made of one unit over and over"),
        Family("crowds", crowds, run_crowds, "one or two segments over and over, up to 1100 (thorough 12000) times"),
        Family("strings", strings, run_strings, "all strings over 13 special bytes up to a length"),
        Family("codes", codes, run_codes, "intact frames of every type and service code"),
        Family("lengths", lengths, run_lengths, "payloads of every length, plain, raw and sealed"),
        Family("values", values, run_values, "every value of every payload byte"),
        Family("sealedbytes", sealedbytes, run_sealedbytes, "every value of every byte of sealed payloads"),
        Family("header", header, run_header, "length headers, inner and outer"),
        Family("cipherlen", cipherlen, run_cipherlen, "ciphertexts of every length"),
        Family("runts", runts, run_runts, "frames too short for their fixed fields"),
        Family("multi", multi, run_multi, "all sequences of up to three segments over 23"),
    ]
