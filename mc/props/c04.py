"""C04 chunking independence."""
import itertools

from mc import ref, session, sut
from mc.clocks import PACES, at_paces, timed
from mc.core import Family, fail, hx, un

PROP, LEVEL = "C04", "model_checking"
RULE = ("a case is a response stream, a block of cut sets and a polling mode; every chunking is replayed on a fresh real session and must give the "
        "reference answer exactly when the terminator is in; a state is (stream, bytes delivered, chunk boundary class, outcome so far)")
ASSUMPTIONS = ["wires longer than the exhaustive bound are cut at most 2 (thorough 3) times"]

STREAMS = {}


def streams():
    if STREAMS:
        return STREAMS
    for enc in (False, True):
        for kind in ref.KINDS:
            STREAMS["%s-%d" % (kind, enc)] = (kind, enc, sut.RESP[kind], sut.response_wire(kind, sut.RESP[kind], enc))
    # dense in escapes, with payload bytes that look like escapes
    p = b"\x01\x00\x02\x00\x01" + b"\x1b\x0e\x0d\x1b\x1b\x0f\x8d\x02\xfe\x86"
    STREAMS["dense-0"] = ("params", False, p, sut.response_wire("params", p))
    STREAMS["wtime00"] = ("wtime", False, b"\x00", sut.response_wire("wtime", b"\x00", src=(0x0D0D, 0x1B)))
    big = b"\x01\x00\x02\x00\x00" + bytes(range(256)) * 4
    STREAMS["big-0"] = ("params", False, big, sut.response_wire("params", big))
    for n in (5000, 65000):
        huge = b"\x01\x00\x02\x00\x01" + bytes((i * 3 + i // 256) & 255 for i in range(n))
        STREAMS["huge%d-0" % n] = ("params", False, huge, sut.response_wire("params", huge))
        STREAMS["huge%d-1" % n] = ("params", True, huge, sut.response_wire("params", huge, True))
    STREAMS["big-1"] = ("params", True, big, sut.response_wire("params", big, True))
    return STREAMS


def deliver(name, chunks, mode, ctx, prefix=b""):
    kind, enc, payload, w = streams()[name]
    ctx.trace()
    c = sut.conn(enc)
    c.send(sut.request(kind))
    n, got = 0, None
    last = len(chunks) - 1
    for i, ch in enumerate(chunks):
        if mode & 8:                       # the caller reuses its receive buffer
            buf = bytearray(ch)
            c.receive_data(buf)
            buf[:] = b"\x0d" * len(buf)
        else:
            c.receive_data(ch)
        n += len(ch)
        ctx.step()
        if n < len(w):
            polls = (0, 1, 2)[mode & 3]
            if mode & 4 and not i & 1:
                polls = 0
            for _ in range(polls):
                r = sut.poll(c)
                if r[0] != "need":
                    fail("%s cut as %s: polling after %d of %d bytes gives %s %r" % (name, [len(x) for x in chunks], n, len(w), r[0], r[1]))
        ctx.state(name, n, i == last, mode & 3 != 0)
    r = sut.poll(c)
    if r[0] != "answer":
        fail("%s cut as %s (mode %d): the complete response gives %s %r" % (name, [len(x) for x in chunks], mode, r[0], r[1]))
    sut.check_answer(kind, payload, r[1], "%s cut as %s" % (name, [len(x) for x in chunks]))
    if sut.poll(c)[0] != "need":
        fail("%s cut as %s: something is left after the answer" % (name, [len(x) for x in chunks]))
    c.send(sut.request(kind))              # idle again
    ctx.outcome(name, len(chunks))


def cut(w, cuts):
    e = [0] + list(cuts) + [len(w)]
    return [w[a:b] for a, b in zip(e, e[1:])]


def run_all(case, ctx):
    """All chunkings of w whose first k cut decisions are given."""
    name, bits, k, mode = case
    w = streams()[name][3]
    n = len(w) - 1
    for rest in range(1 << (n - k)):
        m = bits | rest << k
        deliver(name, cut(w, [i + 1 for i in range(n) if m >> i & 1]), mode, ctx)


def run_cuts(case, ctx):
    name, first, ncuts, mode = case
    w = streams()[name][3]
    rest = range(first, len(w) + 1)        # equal cuts give empty chunks
    for more in itertools.combinations_with_replacement(rest, ncuts - 1):
        deliver(name, cut(w, [first] + list(more)), mode, ctx)


def run_bytes(case, ctx):
    name, size, mode = case
    w = streams()[name][3]
    deliver(name, [w[i:i + size] for i in range(0, len(w), size)], mode, ctx)


def run_stray(case, ctx):
    """Stray terminators in front, cut anywhere."""
    name, strays, mode = case
    kind, enc, payload, w = streams()[name]
    s = b"\x0d" * strays + w
    for a in range(0, len(s) + 1):
        for b in range(a, len(s) + 1):
            chunks = cut(s, [a, b])
            ctx.trace()
            c = sut.conn(enc)
            c.send(sut.request(kind))
            done = None
            n = 0
            for ch in chunks:
                c.receive_data(ch)
                n += len(ch)
                if mode:
                    r = sut.poll(c)
                    ctx.step()
                    if n < len(s) and r[0] != "need":
                        fail("%s behind %d stray terminators cut at %d,%d: early %s %r" % (name, strays, a, b, r[0], r[1]))
                    if r[0] == "answer" and done is None:
                        done = r
                ctx.state(name, "stray", strays, n)
            if done is None:
                done = sut.poll(c)
            if done[0] != "answer":
                fail("%s behind %d stray terminators cut at %d,%d: %s %r" % (name, strays, a, b, done[0], done[1]))
            sut.check_answer(kind, payload, done[1])
    ctx.outcome(name, strays)


def run_two(case, ctx):
    """Two exchanges on one session, each response cut once, polled always/never."""
    n1, n2, mode = case
    k1, e1, p1, w1 = streams()[n1]
    k2, e2, p2, w2 = streams()[n2]
    for a in range(len(w1) + 1):
        for b in sorted({0, 1, len(w2) // 2, len(w2) - 1, len(w2), a % len(w2)}):
            ctx.trace()
            c = sut.conn(e1)
            for kind, payload, w, at in ((k1, p1, w1, a), (k2, p2, w2, b)):
                c.send(sut.request(kind))
                for i, ch in enumerate((w[:at], w[at:])):
                    c.receive_data(ch)
                    ctx.step()
                    if i == 0 and mode and at < len(w):
                        if sut.poll(c)[0] != "need":
                            fail("%s then %s cut at %d,%d: early answer" % (n1, n2, a, b))
                r = sut.poll(c)
                if r[0] != "answer":
                    fail("%s then %s cut at %d,%d: %s %r" % (n1, n2, a, b, r[0], r[1]))
                sut.check_answer(kind, payload, r[1])
                ctx.state(n1, n2, kind, at)
    ctx.outcome(n1, n2)


def run_context(case, ctx):
    """Every byte value next to every chunk border: the last data byte takes all values, and with it each redundancy byte."""
    kind, enc, x, y = case
    head = {"arch": b"\x01\x04\x03\x02\x01", "params": b"\x01\x00\x02\x00\x01", "time": sut.TIMEB + b"\x00"}[kind]
    payload = head + bytes([y, x]) + (b"" if kind != "time" else bytes([x, y]))
    w = sut.response_wire(kind, payload, enc)
    what = "%s%s data ..%02x%02x" % (kind, " enc" if enc else "", y, x)
    n = len(w)
    sets = [(a,) for a in range(1, n)] + [(a, b) for a in range(n - 7, n) for b in range(a, n)] + [(a, n - 1) for a in range(1, n - 7)]
    for cuts in sets:
        for mode in (0, 1):
            ctx.trace()
            c = sut.conn(enc)
            c.send(sut.request(kind))
            at = 0
            for ch in cut(w, cuts):
                c.receive_data(ch)
                at += len(ch)
                ctx.step()
                if mode and at < n:
                    r = sut.poll(c)
                    if r[0] != "need":
                        fail("%s cut at %s: polling after %d of %d bytes gives %s %r" % (what, cuts, at, n, r[0], r[1]))
            r = sut.poll(c)
            if r[0] != "answer":
                fail("%s cut at %s (polled %d): the complete response %s gives %s %r" % (what, cuts, mode, hx(w), r[0], r[1]))
            sut.check_answer(kind, payload, r[1], what)
    ctx.state(kind, enc, x, y)
    ctx.outcome(kind, enc, w[-2], w[-3])


def run_after(case, ctx):
    """An unusable telegram and then the response, both cut anywhere (also across each other), polled or not."""
    from mc.props import c05
    kind, enc, unit, mode = case
    u = c05.units(kind, enc)[unit]
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    s = u + w
    what = "%s%s behind %s" % (kind, " enc" if enc else "", unit)
    for a in range(0, len(s)):
        for b in range(a, len(s)) if len(s) < 100 else sorted({a, len(u) - 1, len(u), len(u) + 1, len(s) - 1} & set(range(a, len(s)))):
            ctx.trace()
            c = sut.conn(enc)
            c.send(sut.request(kind))
            at, got = 0, None
            for ch in cut(s, [a, b]):
                c.receive_data(ch)
                at += len(ch)
                ctx.step()
                if mode and at < len(s):
                    r = sut.poll(c)
                    if r[0] != "need":
                        fail("%s cut at %d,%d: polling after %d of %d bytes gives %s %r" % (what, a, b, at, len(s), r[0], r[1]))
            r = sut.poll(c)
            if r[0] != "answer":
                fail("%s cut at %d,%d (polled %d): the complete response gives %s %r" % (what, a, b, mode, r[0], r[1]))
            sut.check_answer(kind, sut.RESP[kind], r[1], what)
            ctx.state(kind, enc, unit, a, mode)
    ctx.outcome(kind, enc, unit)


def run_lead(case, ctx):
    """Bytes that do not belong to it glued to the front of a response, and another response: the same outcome however that is cut."""
    kind, enc, lead, mode = case
    lead = un(lead)
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    other = bytearray(sut.RESP[kind])      # a second response that can be told from the first
    if kind == "time":
        other[0] ^= 1
    elif len(other) > 7:
        other[-1] ^= 1
    s = lead + w + sut.response_wire(kind, bytes(other), enc)

    def outcome(cuts):
        ctx.trace()
        c = sut.conn(enc)
        c.send(sut.request(kind))
        chunks = cut(s, cuts)
        for i, ch in enumerate(chunks):
            c.receive_data(ch)
            ctx.step()
            if mode or i == len(chunks) - 1:
                r = sut.poll(c)
                if r[0] != "need":
                    return r[0], r[1] if r[0] == "answer" else type(r[1]).__name__
        return "need", None

    whole = outcome([])
    n = len(s)
    for cuts in [[a] for a in range(1, n)] + [[a, b] for a in range(1, len(lead) + 3) for b in (a + 1, a + 2, len(lead) + len(w) - 1, len(lead) + len(w), n - 1) if a < b] + [list(range(1, n))]:
        got = outcome(cuts)
        if got != whole:
            fail("%s%s with %s in front and another behind, cut at %s (polled %d): %s %r, in one piece: %s %r" % (("%s%s" % (kind, " enc" if enc else ""), hx(w), hx(lead), cuts[:4], mode) + got + whole))
    ctx.state(kind, enc, case[2], mode)
    ctx.outcome(str(case))


PATTERNS = [b"\x00", b"\x41", b"\xff", b"\x30\x31", b"\x00\x01", b"\x0d", b"\x1b", b"\x1b\x0d", b"\x00\x00\x80\x3f", b"\x02\x41\xfe", b"ABCDE", b"\x10\x20\x30\x40\x50\x60", b"12345678"]


def run_repeats(case, ctx):
    """Data which repeats itself, cut so that neighbouring (or every other) chunks are byte for byte the same."""
    kind, pat, mode = case
    unit = PATTERNS[pat]
    head = {"arch": b"\x01\x04\x03\x02\x01", "params": b"\x01\x00\x02\x00\x01"}[kind]
    payload = head + unit * (48 // len(unit))
    w = sut.response_wire(kind, payload)
    stuffed = ref.stuff(unit + b"\x0d")[:-1]
    period = len(stuffed)
    start = w.index(stuffed * 2)
    for off in range(start + period):
        for size in sorted({k * period for k in range(1, 9)} | {1, 2, 3}):
            if size > 24:
                continue
            for more in (0, 1) if size > 1 else (0,):
                cuts, at, i = [], off, 0
                while at < len(w):
                    cuts.append(at)
                    at += size if not more or i & 1 else 1      # more: single bytes between the repeated chunks
                    i += 1
                ctx.trace()
                c = sut.conn(False)
                c.send(sut.request(kind))
                n = 0
                for ch in cut(w, cuts):
                    c.receive_data(ch)
                    n += len(ch)
                    ctx.step()
                    if mode and n < len(w):
                        r = sut.poll(c)
                        if r[0] != "need":
                            fail("%s data %s.. cut from %d every %d: polling after %d of %d bytes gives %s %r" % (kind, hx(unit), off, size, n, len(w), r[0], r[1]))
                r = sut.poll(c)
                if r[0] != "answer":
                    fail("%s data %s.. cut from %d every %d (polled %d): the complete response gives %s %r" % (kind, hx(unit), off, size, mode, r[0], r[1]))
                sut.check_answer(kind, payload, r[1], "%s data %s.. cut from %d every %d" % (kind, hx(unit), off, size))
        ctx.state(kind, pat, off, mode)
    ctx.outcome(kind, pat)


class Script:
    """A transport which hands out prepared chunks."""

    def __init__(self, chunks):
        self.chunks, self.sent = list(chunks), []

    def connect(self):
        pass

    def disconnect(self):
        pass

    def send(self, data):
        self.sent.append(bytes(data))

    def recv(self):
        if not self.chunks:
            fail("client asks for more data after the complete response")
        return self.chunks.pop(0)


def client(tr, enc, pw=None):
    from elgas.client import ElgasClient
    k = dict(encryption_key=sut.KEY, encryption_key_id=sut.KEY_ID) if enc else {}
    return ElgasClient(transport=tr, password=sut.PW if pw is None else pw, password_id=810, **k)


def run_client(case, ctx):
    name, first = case
    kind, enc, payload, w = streams()[name]
    for second in range(first, len(w) + 1):
        ctx.trace()
        tr = Script(cut(w, [first, second]))
        cl = client(tr, enc)
        cl.connect()
        if kind == "time":
            exp, got = ref.decode_response(kind, payload)["time"], cl.read_time()
            if exp != got:
                fail("client read_time gives %r" % (got,))
        elif kind == "values":
            sut.check_answer(kind, payload, cl.read_instantaneous_values())
        elif kind == "wtime":
            cl.write_time(sut.T0)
        elif kind == "arch":
            sut.check_answer(kind, payload, cl.read_archive(sut.arch(1), 5, 77))
        elif kind == "archt":
            sut.check_answer(kind, payload, cl.read_archive_by_time(sut.arch(1), 5, sut.T0))
        if len(tr.sent) != 1:
            fail("client sent %d requests" % len(tr.sent))
        ctx.step(3)
        ctx.state(name, "client", first, second)
    ctx.outcome(name, first)


def families(tier):
    q = tier == "quick"
    S = {k: v for k, v in streams().items() if not k.startswith("huge")}

    def huge():
        for name in ("huge5000-0", "huge5000-1", "huge65000-0", "huge65000-1"):
            for size in (1, 7, 255, 256, 512, 1000, 1024, 1460, 2048, 4096, 8192, 16384, 32768, 65535):
                for mode in (0, 1):
                    if size >= 255 or "5000-" in name and name < "huge6" and size > 1 - mode:
                        yield [name, size, mode]

    def all_():
        names = ["wtime-0"] if q else ["wtime-0", "wtime00", "params-0"]
        for name in names:
            n = len(S[name][3]) - 1
            k = max(0, n - 8)
            for mode in (0, 1) if q else (0, 1, 2, 5, 9):
                for bits in range(1 << k):
                    yield [name, bits, k, mode]

    def cuts():
        for name in S:
            long = len(S[name][3]) > 200
            for ncuts in ((1,) if long and q else (1, 2) if q else (1, 2) if long else (1, 2, 3)):
                for mode in (0, 1, 8) if q else (0, 1, 2, 5, 8, 9):
                    for first in range(0, len(S[name][3]) + 1, 1 if not long or ncuts == 1 else 7):
                        yield [name, first, ncuts, mode]

    def sizes():
        for name in S:
            for size in range(1, min(len(S[name][3]), 64) + 1):
                for mode in (0, 1, 2, 5, 8, 9):
                    yield [name, size, mode]

    def stray():
        for name in S:
            if len(S[name][3]) < 200:
                for k in (1, 2, 3):
                    for mode in (0, 1):
                        yield [name, k, mode]

    def two():
        for a in S:
            for b in S:
                if S[a][1] == S[b][1] and len(S[a][3]) < 200 and (not q or len(S[b][3]) < 200):
                    for mode in (0, 1):
                        yield [a, b, mode]

    def clients():
        for name in S:
            if S[name][0] != "params" and len(S[name][3]) < 200:
                for first in range(len(S[name][3]) + 1):
                    yield [name, first]

    def context():
        for enc in (False, True):
            for kind in ("arch",) if q else ("arch", "params", "time"):
                for y in (0x41,) if q else (0x41, 0x0D, 0x1B, 0x02):
                    for x in range(256):
                        yield [kind, enc, x, y]

    def after():
        from mc.props import c05
        for enc in (False, True):
            for kind in ("time", "params") if q else ref.KINDS:
                for unit in c05.units(kind, enc):
                    for mode in (0, 1):
                        yield [kind, enc, unit, mode]

    def lead():
        B = (0x00, 0x02, 0x09, 0x0A, 0x0D, 0x1B, 0x20, 0x85, 0x8D, 0xFE, 0xFF)
        leads = [bytes([a]) for a in range(256)] + [bytes(p) for p in itertools.product(B, repeat=2)]
        if not q:
            leads += [bytes(p) for p in itertools.product(B, repeat=3)]
        for enc in (False, True):
            for kind in ("time",) if q else ref.KINDS:
                for x in leads:
                    for mode in (0, 1):
                        yield [kind, enc, hx(x), mode]

    def repeats():
        for kind in ("arch",) if q else ("arch", "params"):
            for pat in range(len(PATTERNS)):
                for mode in (0, 1):
                    yield [kind, pat, mode]

    def cut1():
        for name in S:
            if len(S[name][3]) < 200:
                for first in range(0, len(S[name][3]) + 1):
                    yield [name, first, 1, 0]
                    yield [name, first, 1, 1]

    def slow():
        for name in S:
            for size in (1, 2, 7):
                yield [name, size, 0]
                yield [name, size, 1]

    return [
        Family("clocks", at_paces(cut1), timed(run_cuts), "every cut, the clocks of this computer running at ten paces"),
        Family("clocks2", at_paces(slow), timed(run_bytes), "chunks of 1, 2 and 7 bytes, the clocks running at ten paces"),
        Family("clocks3", at_paces(clients), timed(run_client), "every two-cut chunking through ElgasClient, the clocks running at ten paces") if not q else
        Family("clocks3", at_paces(clients, paces=PACES[3:5]), timed(run_client), "every two-cut chunking through ElgasClient, the clocks running at two paces"),
        Family("repeats", repeats, run_repeats, "periodic data, cut so that chunks repeat"),
        Family("context", context, run_context, "every value of the last data byte and of each redundancy byte next to the cuts"),
        Family("huge", huge, run_bytes, "responses up to the longest there can be"),
        Family("lead", lead, run_lead, "every byte and pairs of special bytes glued to the front, cut anywhere"),
        Family("after", after, run_after, "an unusable telegram in front, two cuts anywhere"),
        Family("sizes", sizes, run_bytes, "fixed-size chunks of every size"),
        Family("cuts", cuts, run_cuts, "every placement of the cuts, empty chunks included"),
        Family("stray", stray, run_stray, "1-3 stray terminators in front, two cuts anywhere"),
        Family("two", two, run_two, "two exchanges on one session"),
        Family("client", clients, run_client, "every two-cut chunking through ElgasClient"),
        Family("all", all_, run_all, "all 2^(n-1) chunkings of short wires"),
    ]
