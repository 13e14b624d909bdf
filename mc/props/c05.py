"""C05 resynchronisation after unusable input."""
import itertools

from mc import ref, session, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx, un
from mc.props.c04 import Script, client

PROP, LEVEL = "C05", "model_checking"
RULE = ("a case is a sequence of unusable units, per unit glued to or separate from what follows, polled or not, before (and behind) the genuine response; "
        "the session must deliver the genuine response; a state is (outstanding kind, units consumed so far, unit glued, polled)")
ASSUMPTIONS = ["an unterminated unusable piece is indistinguishable from the start of a frame, so units are terminated unless they follow an accepted response in the same chunk"]
EMPTY = b""


def units(kind, enc):
    """Complete but unusable pieces, each ending in the terminator."""
    p = sut.RESP[kind]
    w = sut.response_wire(kind, p, enc)
    f = ref.unstuff(w)
    bad = bytearray(f)
    bad[12] ^= 0x40                        # damaged payload
    badlen = ref.frame(ref.RESPONSE, ref.KINDS[kind], p, length=len(p) + 16)
    req = ref.wire(ref.ENC_REQUEST if enc else ref.REQUEST, ref.KINDS[kind], bytes(10))
    U = {
        "stray": b"\x0d",
        "noise": b"\x41\xff\x00\x42\x0d",
        "escape": b"\x1b\x0d",
        "escapes": b"\x1b\x1b\x0e\x1b\x41\x1b\x0f\x0d",
        "head": w[:12] + b"\x0d",
        "stx": b"\x02\x0d",
        "prefix": b"\x02\xfe" + bytes([f[2]]) + b"\x0d",
        "prefix4": f[:6].replace(b"\x0d", b"\x0e") + b"\x0d",
        "tail": w[9:],
        "damaged": ref.stuff(bytes(bad)),
        "badlen": ref.stuff(badlen),
        "echo": req,
        "otherecho": ref.wire(ref.REQUEST, 0x6C, b""),
        "type88": ref.wire(0x88, ref.KINDS[kind], p),
        "unknown": ref.wire(ref.RESPONSE, 0x99, p),
        "unhandled": ref.wire(ref.RESPONSE, 0x65, p),
        "call": ref.wire(ref.RESPONSE, 0x87, b"\x00"),
        "unkerr": ref.wire(ref.RESPONSE, 0x98, b"\x01"),
        "runt": ref.stuff(b"\x02\xfe\x86" + bytes([ref.KINDS[kind]]) + b"\x08\x00"[:2] + ref.redundancy(b"\xfe\x86" + bytes([ref.KINDS[kind]]) + b"\x08\x00") + b"\x0d"),
        "long": b"\x02\xfe" + bytes(range(0x20, 0x80)) * 12 + b"\x0d",
    }
    s = ref.KINDS[kind]
    if enc:
        good = ref.seal(p, sut.KEY, sut.KEY_ID)
        flip = bytearray(good)
        flip[-1] ^= 1
        U["badcrc"] = ref.wire(ref.ENC_RESPONSE, s, bytes(flip))
        U["wrongid"] = ref.wire(ref.ENC_RESPONSE, s, ref.seal(p, sut.KEY, 5))
        U["wrongkey"] = ref.wire(ref.ENC_RESPONSE, s, ref.seal(p, b"\x99" * 16, sut.KEY_ID))
        U["encshort"] = ref.wire(ref.ENC_RESPONSE, s, b"\x01")
        U["encempty"] = ref.wire(ref.ENC_RESPONSE, s, b"")
        U["encodd"] = ref.wire(ref.ENC_RESPONSE, s, good[:-3])
    else:
        U["encnokey"] = ref.wire(ref.ENC_RESPONSE, s, ref.seal(p, sut.KEY, sut.KEY_ID))
    return U


def check_units():
    for enc in (False, True):
        for kind in ref.KINDS:
            for n, b in units(kind, enc).items():
                segs, rest = ref.segments(b)
                assert not rest and segs, (n, b)
                for s in segs:
                    for k in list(ref.KINDS) + [None]:
                        assert session.interpret(s, k, enc)[0] == "junk", (n, kind, enc)


def setup(tier):
    check_units()


def answer_within(c, kind, payload, what, extra):
    """Poll until the answer comes; library errors about the unusable pieces are tolerated here."""
    for _ in range(extra + 2):
        r = sut.poll(c)
        if r[0] == "answer":
            sut.check_answer(kind, payload, r[1], what)
            return
        if r[0] == "need":
            break
        if session.device_error(r[1]):
            fail("%s: unusable input is reported as device error %r" % (what, r[1]))
    fail("%s: the genuine response is not delivered (%s %r)" % (what, r[0], r[1]))


def exchange(c, kind, enc, seq, poll, tail, ctx, U, what):
    """seq: list of (unit, glued-to-next).  tail: bytes behind the response in the same chunk."""
    payload = sut.RESP[kind]
    c.send(sut.request(kind))
    pend = b""
    for name, glued in seq:
        pend += U[name]
        ctx.step()
        ctx.state(kind, enc, name, glued, poll, tail[:3])
        if not glued:
            c.receive_data(pend)
            pend = b""
            if poll:
                for _ in range(len(seq) + 2):
                    r = sut.poll(c)
                    if r[0] == "answer":
                        fail("%s: unusable input %s was delivered as %r" % (what, name, r[1]))
                    if r[0] == "need":
                        break
                    if session.device_error(r[1]):
                        fail("%s: unusable input %s is reported as device error %r" % (what, name, r[1]))
                else:
                    fail("%s: polling does not settle after %s" % (what, name))
    c.receive_data(pend + sut.response_wire(kind, payload, enc) + tail)
    answer_within(c, kind, payload, what, len(seq))


def run_seq(case, ctx):
    kind, enc, names, last = case
    U = units(kind, enc)
    for nm in (U if last else [None]):
        full = list(names) + ([nm] if last else [])
        for glue in itertools.product((0, 1), repeat=len(full)):
            for poll in (0, 1) if not all(glue) else (0,):
                ctx.trace()
                c = sut.conn(enc)
                exchange(c, kind, enc, list(zip(full, glue)), poll, EMPTY, ctx, U,
                         "%s%s after %s (glued %s, polled %d)" % (kind, " enc" if enc else "", full, glue, poll))
                # the next exchange is not disturbed either
                nk = "time" if kind != "time" else "params"
                exchange(c, nk, enc, [], 0, EMPTY, ctx, U, "exchange after %s %s" % (kind, full))
    ctx.outcome(kind, enc, tuple(names))


def run_services(case, ctx):
    """Frames of every type and service nobody can answer with, with every short payload, before the response."""
    kind, enc, what, n = case
    payloads = [b"", b"\x00", b"\x01", b"\x80", b"\xff", b"\x0d", b"\x00\x00", b"\x01\x01", bytes(6), sut.RESP[kind], sut.RESP["arch"]]
    if enc:
        payloads += [ref.seal(x, sut.KEY, sut.KEY_ID) for x in payloads]
    for p in payloads:
        if what == "service":
            frames = [ref.wire(t, n, p) for t in (ref.RESPONSE, ref.ENC_RESPONSE)]
        else:
            frames = [ref.wire(n, s, p) for s in (ref.KINDS[kind], 0x65, 0x99)]
        for u in frames:
            for glued in (0, 1):
                ctx.trace()
                c = sut.conn(enc)
                exchange(c, kind, enc, [("u", glued)], 1, EMPTY, ctx, {"u": u}, "%s%s after %s" % (kind, " enc" if enc else "", hx(u)))
                ctx.state(kind, enc, what, n, glued)
    ctx.outcome(str(case))


def tails(kind, enc, U):
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    other = sut.response_wire("time" if kind != "time" else "params", sut.RESP["time" if kind != "time" else "params"], enc)
    T = {"none": b"", "half": w[:len(w) // 2], "byte": b"\x02", "esc": b"\x1b", "dup": w, "dupdup": w + w, "other": other,
         "otherhalf": other[:-1], "noterm": b"\x00\x41\xfe", "err": ref.wire(ref.RESPONSE, ref.KINDS[kind], b"\x01")}
    T.update({"u-" + n: b for n, b in U.items()})
    T.update({"long199": b"\x41" * 199, "long300": bytes(range(0x20, 0x80)) * 3 + b"\x1b", "long2000": b"\x02\xfe\x86" + bytes(range(0x20, 0x80)) * 21,
              "long9000": b"\x00" * 9000, "long70000": b"\x02\xfe\x86" + b"\x42\x1b\x0f" * 23400,
              "manydup": w * 30, "manyother": other * 40, "manyerr": ref.wire(ref.RESPONSE, ref.KINDS[kind], b"\x01") * 50, "manystray": b"\x0d" * 700,
              "manymixed": (w + other + U["damaged"] + U["echo"]) * 20 + w[:-2]})
    return T


def run_tail_many(case, ctx):
    """Every exchange of a long session leaves the same thing behind."""
    kind, enc, tname, nk, n = case
    U = units(kind, enc)
    t = tails(kind, enc, U)[tname]
    c = sut.conn(enc)
    for i in range(n):
        k = (kind, nk)[i % 2]
        exchange(c, k, enc, [], 0, t, ctx, U, "%d exchanges, each with %s behind the response" % (i + 1, tname))
    ctx.trace()
    ctx.outcome(str(case))


def run_tail_err(case, ctx):
    """Left-overs behind an answer by which the device refuses the request."""
    kind, enc, tname, nk = case
    U = units(kind, enc)
    t = tails(kind, enc, U)[tname]
    for code in (1, 2, 8):
        body = bytes([code])
        for sealed in (0, 1) if enc else (0,):
            refusal = ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(body, sut.KEY, sut.KEY_ID)) if sealed else ref.wire(ref.RESPONSE, ref.KINDS[kind], body)
            for polls in (0, 1, 2):
                for first in (None, "noise", "damaged"):
                    ctx.trace()
                    ctx.step()
                    c = sut.conn(enc)
                    what = "%s%s refused with %02x and %s behind it, then %s" % (kind, " enc" if enc else "", code, tname, nk)
                    c.send(sut.request(kind))
                    c.receive_data((U[first] if first else b"") + refusal + t)
                    r = sut.poll(c)
                    if r[0] != "error" or not session.device_error(r[1]):
                        fail("%s: the refusal is not reported (%s %r)" % (what, r[0], r[1]))
                    for _ in range(polls):
                        r = sut.poll(c)
                        if r[0] == "answer":
                            fail("%s: left-over delivered as %r" % (what, r[1]))
                    exchange(c, nk, enc, [], 1, EMPTY, ctx, U, what)
                    exchange(c, kind, enc, [], 0, EMPTY, ctx, U, what + ", third exchange")
                    ctx.state(kind, enc, tname, nk, code, sealed, polls)
    ctx.outcome(str(case))


def run_tail(case, ctx):
    """Left-overs behind an accepted response do not disturb the following exchanges."""
    kind, enc, tname, nk = case
    U = units(kind, enc)
    t = tails(kind, enc, U)[tname]
    few = 1 if len(t) > 5000 else 2 if len(t) > 500 else 6
    for first in [None] + list(U)[:few]:
        for poll_after in (0, 1):
            for second in [None] + list(U)[:few]:
                ctx.trace()
                c = sut.conn(enc)
                what = "%s with %s behind it, then %s" % (kind, tname, nk)
                exchange(c, kind, enc, [(first, 1)] if first else [], 0, t, ctx, U, what)
                if poll_after:
                    r = sut.poll(c)
                    if r[0] == "answer":
                        fail("%s: left-over delivered as %r" % (what, r[1]))
                exchange(c, nk, enc, [(second, 0)] if second else [], 1, EMPTY, ctx, U, what)
                exchange(c, kind, enc, [], 0, EMPTY, ctx, U, what + ", third exchange")
    ctx.outcome(kind, enc, tname, nk)


def run_many(case, ctx):
    """Many unusable pieces at once."""
    kind, enc, name, n, glued = case
    U = units(kind, enc)
    c = sut.conn(enc)
    c.send(sut.request(kind))
    if glued:
        c.receive_data(U[name] * n + sut.response_wire(kind, sut.RESP[kind], enc))
    else:
        for _ in range(n):
            c.receive_data(U[name])
        c.receive_data(sut.response_wire(kind, sut.RESP[kind], enc))
    answer_within(c, kind, sut.RESP[kind], "%s after %d x %s" % (kind, n, name), n)
    ctx.step(n)
    ctx.outcome(kind, enc, name, n)


def run_client(case, ctx):
    """The same through ElgasClient: the operation itself must return the answer."""
    kind, enc, names, glue = case
    U = units(kind, enc)
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    chunks, pend = [], b""
    for n, g in zip(names, glue):
        pend += U[n]
        if not g:
            chunks.append(pend)
            pend = b""
    chunks.append(pend + w)
    tr = Script(chunks + [sut.response_wire("time", sut.RESP["time"], enc)])
    cl = client(tr, enc)
    cl.connect()
    if kind == "time":
        got = cl.read_time()
        if got != sut.T0:
            fail("read_time returned %r" % (got,))
    elif kind == "values":
        sut.check_answer(kind, sut.RESP[kind], cl.read_instantaneous_values())
    elif kind == "wtime":
        cl.write_time(sut.T0)
    elif kind == "arch":
        sut.check_answer(kind, sut.RESP[kind], cl.read_archive(sut.arch(1), 5, 77))
    elif kind == "archt":
        sut.check_answer(kind, sut.RESP[kind], cl.read_archive_by_time(sut.arch(1), 5, sut.T0))
    if cl.read_time() != sut.T0:
        fail("the operation after %s fails" % kind)
    ctx.step(len(names) + 1)
    ctx.state("client", kind, enc, tuple(names))
    ctx.outcome(kind, enc, tuple(names), tuple(glue))


def deliver(kind, enc, chunks, polls, ctx, what):
    """Chunks (the last one completes the genuine response), polled between them where the bit is set."""
    c = sut.conn(enc)
    payload = sut.RESP[kind]
    c.send(sut.request(kind))
    n = sum(x.count(b"\x0d") for x in chunks)
    for i, x in enumerate(chunks):
        c.receive_data(x)
        ctx.step()
        if i < len(chunks) - 1 and polls >> i & 1:
            for _ in range(n + 2):
                r = sut.poll(c)
                if r[0] == "answer":
                    fail("%s: delivered as %r before the response is complete" % (what, r[1]))
                if r[0] == "need":
                    break
                if session.device_error(r[1]):
                    fail("%s: unusable input is reported as device error %r" % (what, r[1]))
            else:
                fail("%s: polling does not settle" % what)
    answer_within(c, kind, payload, what, n)
    exchange(c, "time", enc, [], 0, EMPTY, ctx, {}, "exchange after " + what)
    ctx.trace()


def run_split(case, ctx):
    """A unit and the response behind it, cut anywhere."""
    kind, enc, name, ncuts = case
    u = units(kind, enc)[name]
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    b = u + w
    # cuts in the unit, around its end, and at a few places in the response
    places = sorted({*range(1, len(u) + 4), len(b) - 1, len(b) - 2, len(u) + len(w) // 2})
    places = [x for x in places if x < len(b)]
    if len(places) > 90:
        places = [x for x in places if x < 12 or x > len(u) - 12]
    for k in range(ncuts + 1):
        for cuts in itertools.combinations(places, k):
            e = [0, *cuts, len(b)]
            chunks = [b[x:y] for x, y in zip(e, e[1:])]
            for polls in {0, (1 << k) - 1}:
                deliver(kind, enc, chunks, polls, ctx, "%s behind %s cut at %s, polls %x" % (kind, name, cuts, polls))
    ctx.state("split", kind, enc, name)
    ctx.outcome("split", kind, enc, name)


def run_noise(case, ctx):
    """Short pieces of noise, each byte its own chunk or glued, in front of the response."""
    kind, enc, noise = case
    b = un(noise)
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    n = len(b)
    for m in range(1 << n):
        cuts = [0] + [i + 1 for i in range(n) if m >> i & 1]
        chunks = [b[x:y] for x, y in zip(cuts, cuts[1:])]
        rest = b[cuts[-1]:] + w
        for tail in ([rest], [rest[:-1], rest[-1:]]):
            k = len(chunks) + len(tail) - 1
            for polls in range(1 << k) if k <= 3 else {0, (1 << k) - 1, 0x55 & ((1 << k) - 1), 0xAA & ((1 << k) - 1)}:
                deliver(kind, enc, chunks + tail, polls, ctx, "%s behind noise %s as %s, polls %x" % (kind, noise, [hx(x) for x in chunks + tail[:-1]], polls))
    ctx.state("noise", kind, enc, noise)
    ctx.outcome("noise", kind, enc, noise)


def run_idle(case, ctx):
    """Unusable input while nothing is outstanding."""
    kind, enc, names, poll = case
    U = units(kind, enc)
    c = sut.conn(enc)
    for rounds in range(2):
        for n in names:
            c.receive_data(U[n])
            if poll:
                r = sut.poll(c)
                if r[0] == "answer":
                    fail("unusable input %s delivered while idle" % n)
        exchange(c, kind, enc, [], 0, EMPTY, ctx, U, "%s after %s while idle" % (kind, names))
        ctx.state("idle", kind, enc, tuple(names), rounds)
    ctx.outcome(kind, enc, tuple(names))


def families(tier):
    q = tier == "quick"
    kinds = list(ref.KINDS)

    def seq1():
        for enc in (False, True):
            for kind in kinds:
                yield [kind, enc, [], False]
                yield [kind, enc, [], True]

    def seq2():
        for enc in (False, True):
            for kind in kinds:
                for a in units(kind, enc):
                    yield [kind, enc, [a], True]

    def seq3():
        for enc in (False, True):
            for kind in (("time",) if q else kinds):
                names = list(units(kind, enc))
                for a, b in itertools.product(names[:8] + names[-3:] if q else names, names):
                    yield [kind, enc, [a, b], True]

    def seq4():
        for enc in (False, True):
            names = list(units("arch", enc))
            for t in itertools.product(names[:6] + names[-3:], repeat=3):
                yield ["arch", enc, list(t), True]

    def tail():
        for enc in (False, True):
            for kind in kinds:
                for t in tails(kind, enc, units(kind, enc)):
                    for nk in (("time", "params", kind) if q else kinds):
                        yield [kind, enc, t, nk]

    def tailmany():
        for enc in (False, True):
            for kind in ("time", "arch") if q else kinds:
                for t, b in tails(kind, enc, units(kind, enc)).items():
                    for nk in ("params", kind):
                        for n in (9, 60) if q else (9, 60, 400):
                            if n * len(b) < 400000:
                                yield [kind, enc, t, nk, n]

    def many():
        for enc in (False, True):
            for kind in ("time", "params"):
                for name in units(kind, enc):
                    for n in (10, 100, 1200) if q else (10, 100, 1200, 5000):
                        if name == "long" and n > 100:
                            continue
                        for glued in (0, 1):
                            yield [kind, enc, name, n, glued]

    def clients():
        for enc in (False, True):
            for kind in kinds:
                if kind != "params":
                    names = list(units(kind, enc))
                    for a in names:
                        for g in (0, 1):
                            yield [kind, enc, [a], [g]]
                    for a, b in itertools.product(names, names):
                        for g in itertools.product((0, 1), repeat=2):
                            yield [kind, enc, [a, b], list(g)]

    def clientmany():
        for enc in (False, True):
            for kind in ("time", "arch", "wtime") if q else kinds:
                if kind != "params":
                    for name in units(kind, enc):
                        for n in (7, 40, 300) if q else (7, 40, 300, 1100):
                            if name == "long" and n > 40:
                                continue
                            for g in (0, 1):
                                yield [kind, enc, [name] * n, [g] * n]

    def idle():
        for enc in (False, True):
            for kind in kinds:
                for k in (1, 2):
                    for t in itertools.product(units(kind, enc), repeat=k):
                        for poll in (0, 1):
                            yield [kind, enc, list(t), poll]

    def split():
        for enc in (False, True):
            for kind in kinds:
                for name, u in units(kind, enc).items():
                    yield [kind, enc, name, 1 if q and len(u) > 30 else 2]

    def services():
        for enc in (False, True):
            for kind in ("time", "arch") if q else kinds:
                for n in range(256):
                    if n not in ref.KINDS.values():
                        yield [kind, enc, "service", n]
                    if n not in (ref.RESPONSE, ref.ENC_RESPONSE):
                        yield [kind, enc, "type", n]

    def noise():
        for enc in (False, True):
            for kind in ("time", "wtime") if q else kinds:
                for n in range(1, 5 if q else 6):
                    for t in itertools.product((0x41, 0x02, 0x1B, 0x0D, 0xFE), repeat=n - 1):
                        yield [kind, enc, hx(bytes(t) + b"\x0d")]

    def tail1():
        for enc in (False, True):
            for kind in ("time", "params") if q else kinds:
                for t in tails(kind, enc, units(kind, enc)):
                    yield [kind, enc, t, kind]

    def tailerr():
        for enc in (False, True):
            for kind in ("time", "params", "arch") if q else kinds:
                for t in tails(kind, enc, units(kind, enc)):
                    for nk in (kind, "values"):
                        yield [kind, enc, t, nk]

    fams = [
        Family("tailerr", tailerr, run_tail_err, "left-overs behind a refusal by the device x following exchanges"),
        Family("clocks", at_paces(seq1), timed(run_seq), "0 or 1 unusable unit, the clocks of this computer running at ten paces"),
        Family("clocks2", at_paces(tail1), timed(run_tail), "left-overs, the clocks running at ten paces"),
        Family("noise", noise, run_noise, "all strings of up to 3 (thorough 4) bytes over five special ones and a terminator x all chunkings x polls, then the response in one or two chunks"),
        Family("services", services, run_services, "frames of every other type and service x short payloads"),
        Family("split", split, run_split, "every unit x up to 2 cuts anywhere in it and around the response x polls"),
        Family("one", seq1, run_seq, "0 or 1 unusable unit x glue x poll"),
        Family("client", clients, run_client, "up to 2 units through ElgasClient"),
        Family("clientmany", clientmany, run_client, "up to 300 (thorough 1100) units of a kind through ElgasClient"),
        Family("idle", idle, run_idle, "up to 2 units while idle"),
        Family("two", seq2, run_seq, "2 units x glue x poll, all kinds"),
        Family("tail", tail, run_tail, "left-overs behind an accepted response x following exchanges"),
        Family("tailmany", tailmany, run_tail_many, "9 and 60 (thorough 400) exchanges, each with a left-over behind its response"),
        Family("many", many, run_many, "many units"),
        Family("three", seq3, run_seq, "3 units x glue x poll"),
    ]
    if not q:
        fams.append(Family("four", seq4, run_seq, "4 units x glue x poll"))
    return fams
