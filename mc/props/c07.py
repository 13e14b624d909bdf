"""C07 device errors surface as errors and free the session."""
import itertools

from mc import ref, session, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.props.c04 import Script, client

PROP, LEVEL = "C07", "model_checking"
RULE = ("a case is a session history containing device-error responses: service x error byte (all 255 with a bit set) x encryption x "
        "position in the history x chunking; every step is compared with the reference session (error among the set bits, idle "
        "afterwards, next request answered); a state is (encryption, service, error byte, step)")
ASSUMPTIONS = ["byte 0 (no error bit set) is claimed only for writing the time, where it is the acknowledgement",
               "several set bits: the error must correspond to one of them"]


def expect_error(r, byte, what):
    if r[0] != "error":
        fail("%s: device error %02x gives %s %r" % (what, byte, r[0], r[1]))
    names = ref.error_names(byte)
    if not any(k.__name__ in names for k in type(r[1]).__mro__):
        fail("%s: device error %02x (%s) reported as %r" % (what, byte, "/".join(names), r[1]))


def exchange(c, kind, enc, ctx, what):
    w = c.send(sut.request(kind))
    sut.check_request(kind, w, enc)
    c.receive_data(sut.response_wire(kind, sut.RESP[kind], enc))
    r = sut.poll(c)
    if r[0] != "answer":
        fail("%s: next request not answered: %s %r" % (what, r[0], r[1]))
    sut.check_answer(kind, sut.RESP[kind], r[1], what)
    ctx.step(3)


def run_error(case, ctx):
    """One error, delivered whole / byte by byte / behind noise, then every next kind."""
    enc, kind, byte = case
    for mode in range(4):
        for nxt in ref.KINDS if mode == 0 else (kind,):
            ctx.trace()
            what = "%s%s error %02x mode %d next %s" % ("encrypted " if enc else "", kind, byte, mode, nxt)
            c = sut.conn(enc)
            if mode == 3:
                exchange(c, "time", enc, ctx, what)
            c.send(sut.request(kind))
            w = sut.response_wire(kind, bytes([byte]), enc)
            if mode == 1:
                for i in range(len(w)):
                    c.receive_data(w[i:i + 1])
                    ctx.step()
                    if i < len(w) - 1 and sut.poll(c)[0] != "need":
                        fail("%s: something before the error was complete" % what)
            elif mode == 2:
                c.receive_data(b"\x0d\x02\xfe\x86noise\x0d" + w + b"\x0d")
            else:
                c.receive_data(w)
            ctx.step()
            ctx.state(enc, kind, byte, mode)
            expect_error(sut.poll(c), byte, what)
            r = sut.poll(c)
            if r[0] != "need":
                fail("%s: polling again gives %s %r" % (what, r[0], r[1]))
            exchange(c, nxt, enc, ctx, what)
            ctx.outcome(enc, kind, byte, mode)


def run_ok(case, ctx):
    """The acknowledgement byte is success for writing the time."""
    enc, payload = case
    c = sut.conn(enc)
    for k in range(3):
        c.send(sut.request("wtime"))
        c.receive_data(sut.response_wire("wtime", bytes.fromhex(payload), enc))
        r = sut.poll(c)
        ctx.step(2)
        if r[0] != "answer" or type(r[1]).__name__ != "WriteTimeResponse":
            fail("acknowledgement of writing the time gives %s %r" % r)
    ctx.state(enc, payload)
    ctx.outcome(enc, payload)


def run_history(case, ctx):
    """Sequences of exchanges on one session, each answered or refused with an error."""
    enc, seq = case
    c = sut.conn(enc)
    for i, (kind, byte) in enumerate(seq):
        what = "%shistory %s%s step %d" % ("encrypted " if enc else "", "... " if i > 4 else "", seq[max(0, i - 4):i + 1], i)
        if byte is None:
            exchange(c, kind, enc, ctx, what)
        else:
            c.send(sut.request(kind))
            c.receive_data(sut.response_wire(kind, bytes([byte]), enc))
            expect_error(sut.poll(c), byte, what)
            ctx.step(2)
        ctx.state(enc, tuple(map(tuple, seq[max(0, i - 1):i + 1])))
    exchange(c, "time", enc, ctx, "end of %s" % (str(seq)[-200:],))
    ctx.outcome(enc, str(seq))


def run_parts(case, ctx):
    """Error response and what follows it in the same chunk, cut anywhere; next exchange must be unaffected."""
    enc, kind, byte, tail = case
    w = sut.response_wire(kind, bytes([byte]), enc)
    t = {"stray": b"\x0d", "again": w, "answer": sut.response_wire(kind, sut.RESP[kind], enc), "half": w[:5], "junk": b"\x02\xfe\x00\x0d"}[tail]
    for cut in range(len(w) + 1):
        ctx.trace()
        c = sut.conn(enc)
        c.send(sut.request(kind))
        c.receive_data(w[:cut])
        if cut < len(w) and sut.poll(c)[0] != "need":
            fail("early result")
        c.receive_data(w[cut:] + (t if cut < len(w) else b""))
        what = "%s error %02x + %s cut %d" % (kind, byte, tail, cut)
        expect_error(sut.poll(c), byte, what)
        ctx.step(3)
        ctx.state(enc, kind, tail, cut)
        exchange(c, kind, enc, ctx, what)
    ctx.outcome(enc, kind, byte, tail)


def run_left(case, ctx):
    """Whatever is left over behind an error response in the same chunk is gone afterwards."""
    enc, kind, byte = case
    w = sut.response_wire(kind, bytes([byte]), enc)
    full = sut.response_wire(kind, sut.RESP[kind], enc)
    for t in [bytes([b]) for b in range(256)] + [full[:n] for n in range(2, len(full))] + [full[n:-1] for n in range(1, len(full) - 1)]:
        for nxt in (kind, "time"):
            ctx.trace()
            c = sut.conn(enc)
            what = "%s%s error %02x with %s behind" % ("encrypted " if enc else "", kind, byte, hx(t))
            c.send(sut.request(kind))
            c.receive_data(w + t)
            expect_error(sut.poll(c), byte, what)
            exchange(c, nxt, enc, ctx, what)
    ctx.state("left", enc, kind, byte)
    ctx.outcome("left", enc, kind, byte)


def run_address(case, ctx):
    """Error responses from and to any address, behind answered or refused exchanges."""
    enc, kind, byte = case
    A = [(0, 0), (1, 0), (0, 1), (0x0D1B, 0x8D), (0xFFFF, 0xFF)]
    for dst, src in itertools.product(A, repeat=2):
        for before in (None, "time"):
            ctx.trace()
            c = sut.conn(enc, addr=src + dst)
            what = "%s%s error %02x to %s from %s" % ("encrypted " if enc else "", kind, byte, dst, src)
            if before:
                exchange(c, before, enc, ctx, what)
            c.send(sut.request(kind))
            c.receive_data(sut.response_wire(kind, bytes([byte]), enc, dst=dst, src=src))
            expect_error(sut.poll(c), byte, what)
            exchange(c, kind, enc, ctx, what)
            ctx.state("address", enc, kind, byte, dst, src, before)
    ctx.outcome("address", enc, kind, byte)


def operate(cl, kind):
    if kind == "values":
        return cl.read_instantaneous_values()
    if kind == "time":
        return cl.read_time()
    if kind == "wtime":
        return cl.write_time(sut.T0)
    if kind == "params":
        return cl.read_parameters(0)
    if kind == "arch":
        return cl.read_archive(sut.arch(1), 5, 7)
    return cl.read_archive_by_time(sut.arch(1), 5, sut.T0)


def run_client(case, ctx):
    enc, kind, byte, pages = case
    from elgas import exceptions
    chunks = []
    for i in range(pages):      # parameter download: some good pages first
        chunks.append(sut.response_wire("params", bytes([i, 0, 1, 0, 0]) + b"\x04\x00\x30\x00", enc))
    chunks.append(sut.response_wire(kind, bytes([byte]), enc))
    after = sut.response_wire("time", sut.RESP["time"], enc)
    chunks.append(after)
    tr = Script(chunks)
    cl = client(tr, enc)
    cl.connect()
    try:
        v = operate(cl, kind)
    except exceptions.ElgasError as e:
        expect_error(("error", e), byte, "client %s" % kind)
    else:
        fail("client %s: device error %02x gives %r" % (kind, byte, v))
    if cl.read_time() != ref.decode_response("time", sut.RESP["time"])["time"]:
        fail("client: wrong time after a device error")
    if len(tr.sent) != pages + 2:
        fail("client sent %d requests" % len(tr.sent))
    ctx.step(3)
    ctx.state("client", enc, kind, byte, pages)
    ctx.outcome(enc, kind, byte, pages)


def families(tier):
    q = tier == "quick"
    bits = [1 << i for i in range(8)]

    def errors():
        for enc in (False, True):
            for kind in ref.KINDS:
                for byte in range(1, 256):
                    yield [enc, kind, byte]

    def ok():
        for enc in (False, True):
            for p in ("00", "", "0000"):
                yield [enc, p]

    def hist():
        steps = [[k, b] for k in ref.KINDS for b in ((None, 1, 0xFF) if q else (None, 1, 0x82, 0xFF))]
        for enc in (False, True):
            for n in (2,) if q else (2, 3):
                for seq in itertools.product(steps, repeat=n):
                    yield [enc, [list(s) for s in seq]]
            for seq in itertools.product([["time", None], ["time", 1], ["params", 0x10]], repeat=5 if q else 7):
                yield [enc, [list(s) for s in seq]]

    def many():
        for enc in (False, True):
            for kind in ref.KINDS:
                for n in (20, 70, 260) if q else (20, 70, 260, 1100):
                    for byte in (1, 0x40, 0xFF):
                        yield [enc, [[kind, byte]] * n]
                    yield [enc, [[kind, 0x08], ["time", None], ["params", 0x21], [kind, None]] * (n // 4)]

    def parts():
        for enc in (False, True):
            for kind in ref.KINDS:
                for byte in bits + ([0x0D, 0x1B, 0x8D] if q else [0x0D, 0x1B, 0x8D, 3, 0x30, 0x81, 0xFF]):
                    for tail in ("stray", "again", "answer", "half", "junk"):
                        yield [enc, kind, byte, tail]

    def left():
        for enc in (False, True):
            for kind in ref.KINDS:
                for byte in (1, 0x40, 0xFF) if q else bits + [0x0D, 0x1B, 0x8D, 0xFF]:
                    yield [enc, kind, byte]

    def addresses():
        for enc in (False, True):
            for kind in ref.KINDS:
                for byte in bits + [0xFF] if q else range(1, 256):
                    yield [enc, kind, byte]

    def clients():
        for enc in (False, True):
            for kind in ref.KINDS:
                for byte in range(1, 256):
                    for pages in (0, 1, 2) if kind == "params" else (0,):
                        yield [enc, kind, byte, pages]

    return [
        Family("errors", errors, run_error, "every error byte x service x encryption x chunking x next request"),
        Family("clocks", at_paces(addresses if q else errors), timed(run_address if q else run_error), "error responses, the clocks of this computer running at ten paces"),
        Family("clocks2", at_paces(lambda: itertools.islice(hist(), 400)), timed(run_history), "histories of 2 exchanges, the clocks running at ten paces"),
        Family("ok", ok, run_ok, "acknowledgements of writing the time"),
        Family("history", hist, run_history, "all histories of 2 (thorough 3) exchanges, 5 (7) over a smaller alphabet"),
        Family("many", many, run_history, "up to 260 (thorough 1100) exchanges on one session"),
        Family("parts", parts, run_parts, "every cut x what follows in the same chunk"),
        Family("left", left, run_left, "every byte, every beginning and every end of a response left over behind an error"),
        Family("address", addresses, run_address, "error responses from and to any address"),
        Family("client", clients, run_client, "every error byte x service through ElgasClient"),
    ]
