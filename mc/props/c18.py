"""C18 a client operation returns the device's answer or a library error."""
import itertools

from mc import layouts as L
from mc import ref, sut
from mc.core import Family, fail, hx
from mc.props.c04 import client
from mc.props.c07 import operate
from mc.world import FakeSocket, World, installed, transport

PROP, LEVEL = "C18", "fault_enumeration"
RULE = ("a case is a sequence of client operations over a simulated link and device with deviations placed at chosen replies (or at sending, "
        "connecting, disconnecting); every operation must return exactly what the device answered or raise a library error within bounded "
        "virtual time; after a reconnect the client must work; a state is (transport, encryption, operation, reply, deviation, result)")
ASSUMPTIONS = ["the protocol carries no sequence numbers, so a repeated or late answer of the same kind on the same link cannot be told from a fresh one: "
               "no such answer is simulated without a reconnect",
               "a deviation is placed at most at two replies of a sequence"]
T = 10.0

OBJ = [(47, 0), (65, 1), (48, 2)]
PAGES = [[0], [1], [2]]


def objects():
    out = []
    for t, seed in OBJ:
        out.append((t, bytes(L.sample(t, seed, seed != 1))))
    return out


def page(i):
    objs = objects()
    here = objs[i:i + 1]
    last = i >= len(objs) - 1
    body = b"".join((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d for t, d in here)
    return i.to_bytes(2, "little") + len(here).to_bytes(2, "little") + bytes([int(last)]) + body


# deviations which leave the genuine answer on the link in time, in order and with nothing unterminated before it
HARMLESS = {"none", "split", "slow", "bytes", "stray", "strays", "noise", "echo", "damaged+", "short+", "wrongtype+", "after-stray", "after-noise", "foreign+"}
# deviations after which the session on this link is as good as new: the harmless ones, and refusals by the device
CLEAN = HARMLESS | {"deverr01", "deverr80"}
HARMFUL = ["silence", "eof", "reset", "halfeof", "halfreset", "halfsilence", "damaged", "badlen", "wrongkind", "wrongkind+", "deverr01", "deverr80",
           "odd", "half1.5", "noterm", "senderr", "sendtimeout", "unknown", "othersession", "after-junk", "halfgenuine", "crawl", "crawleof", "crawlsilence"]
DEVIATIONS = sorted(HARMLESS - {"none"}) + HARMFUL


class Device:
    """Answers requests on the links of a world; deviations: {reply number: name}."""

    def __init__(self, w, enc, deviations, ctx):
        self.w, self.enc, self.dev, self.ctx = w, enc, deviations, ctx
        self.n = 0               # replies so far
        self.fed = 0             # segments fed during this operation
        self.asked = []
        self.front = []          # what is put on the link in front of every answer
        self.payloads = None     # answers to the next requests, instead of the usual ones
        w.on_open = self.opened

    def opened(self, link):
        self.genuine, self.taken = {}, {}      # answers by kind which were put on this link whole, and which the client reported
        link.on_send = self.sent
        link.rx = b""
        self.arm(link)

    def arm(self, link):
        d = self.dev.get(self.n)
        link.fail_send[:] = []
        if d in ("senderr", "sendtimeout"):
            import serial
            tcp = isinstance(link, FakeSocket)
            link.fail_send[:] = [BrokenPipeError(32, "Broken pipe") if d == "senderr" and tcp else TimeoutError("timed out") if tcp
                                 else serial.SerialException("write failed") if d == "senderr" else serial.SerialTimeoutException("Write timeout")]

    def sent(self, link, data):
        link.rx += data
        while b"\x0d" in link.rx:
            i = link.rx.index(b"\x0d") + 1
            req, link.rx = link.rx[:i], link.rx[i:]
            self.answer(link, req)
        self.arm(link)

    def answer(self, link, req):
        f, p = sut.decode_request(req, self.enc)
        kind = {v: k for k, v in ref.KINDS.items()}.get(f["service"])
        if kind is None:
            fail("client asks for service %02x" % f["service"])
        self.asked.append(kind)
        if len(self.asked) > 40:
            fail("client sends requests without end")
        payload = page(p[10] + 256 * p[11]) if kind == "params" else sut.RESP[kind]
        if self.payloads is not None:
            payload = self.payloads.pop(0)
        enc = self.enc
        w = sut.response_wire(kind, payload, enc)
        other = "time" if kind != "time" else "wtime"
        wo = sut.response_wire(other, sut.RESP[other], enc)
        half = len(w) // 2
        while w[half - 1] == 0x1B:
            half -= 1
        d = self.dev.get(self.n, "none")
        self.n += 1
        bad = bytearray(w)
        bad[-3] ^= 0x40 if bad[-3] ^ 0x40 not in (0x0D, 0x1B, 0x8D) else 0x20
        bad = bytes(bad)
        reset = ConnectionResetError(104, "Connection reset by peer")
        if not isinstance(link, FakeSocket):
            import serial
            reset = serial.SerialException("read failed")
        noise = b"\x02\xfe\x86\x6c\x99noise\x00\xff\x0d"
        plan = {
            "none": [w], "silence": [], "eof": ["eof"], "reset": [reset], "halfeof": [w[:half], "eof"], "halfreset": [w[:half], reset],
            "halfsilence": [w[:half]], "noterm": [w[:-1]], "damaged": [bad], "damaged+": [bad, w],
            "badlen": [ref.stuff(ref.frame(ref.RESPONSE, ref.KINDS[kind], payload, length=len(payload) + 3))],
            "split": [w[:half], w[half:]], "slow": [w[:1], (0.3, w[1:half]), (0.3, w[half:])], "half1.5": [w[:half], (1.5, w[half:])],
            "bytes": [w[i:i + 1] for i in range(len(w))],
            "stray": [b"\x0d", w], "strays": [b"\x0d\x0d" + w], "noise": [noise, w], "echo": [req, w],
            "short+": [b"\x02\x0d" + b"\x1b\x0d" + w], "wrongtype+": [ref.wire(0x84, ref.KINDS[kind], payload), w],
            "foreign+": [ref.wire(ref.RESPONSE, 0x10, b"abc"), ref.wire(0x99, ref.KINDS[kind], b"abc"), w],
            "wrongkind": [wo], "wrongkind+": [wo, w], "odd": [sut.response_wire(kind, b"\xff\xff\xff", enc)],
            "deverr01": [sut.response_wire(kind, b"\x01", enc)], "deverr80": [sut.response_wire(kind, b"\x80", enc)],
            "senderr": [], "sendtimeout": [], "unknown": [ref.wire(ref.RESPONSE, 0x99, payload)],
            "othersession": [sut.response_wire(kind, payload, True, bytes(16), 1)],
            "after-stray": [w + b"\x0d"], "after-noise": [w + noise], "after-junk": [w + b"\x02\xfe"],
            "halfgenuine": [w[:half] + w],
            # so slow that receiving hands over an unterminated part
            "crawl": [w[:1], (0.6, w[1:2]), (0.6, w[2:half]), (0.6, w[half:])],
            "crawleof": [w[:1], (0.6, w[1:2]), (0.6, w[2:half]), (0.6, "eof")], "crawlsilence": [w[:1], (0.6, w[1:2]), (0.6, w[2:half])],
        }[d]
        if kind == "wtime" and d == "odd":
            plan = [sut.response_wire(kind, b"\x11", enc)]
        if d == "othersession" and not enc:
            plan = [sut.response_wire(kind, payload, True)]
        if w in b"".join(x[1] if isinstance(x, tuple) else x for x in plan if isinstance(x, bytes) or isinstance(x, tuple) and isinstance(x[1], bytes)):
            self.genuine[kind] = self.genuine.get(kind, 0) + 1
        t = 0.0
        for x in [a for u in self.front for a in u(w, req, bad, noise, kind, payload)] + plan:
            if isinstance(x, tuple):
                t += x[0] * T
                x = x[1]
            t += 0.01
            link.feed(x, t)
            self.fed += 1


def exact(kind, got, what):
    payload = sut.RESP[kind] if kind != "params" else None
    if kind == "wtime":
        if got is not None:
            fail("%s: returns %r" % (what, got))
    elif kind == "time":
        if got != ref.decode_response("time", payload)["time"]:
            fail("%s: returns %r" % (what, got))
    elif kind == "params":
        exp = objects()
        if not isinstance(got, list) or len(got) != len(exp):
            fail("%s: returns %d of %d objects" % (what, len(got), len(exp)))
        for (t, d), g in zip(exp, got):
            m = L.compare(t, d, g)
            if m:
                fail("%s: %s" % (what, m))
    else:
        sut.check_answer(kind, payload, got, what)


def perform(cl, dev, w, kind, ctx, what, must):
    """One operation.  Returns 'ok' or the library error."""
    from elgas import exceptions
    t0, n0, dev.fed = w.now, len(dev.asked), 0
    c0 = w.calls
    try:
        got = operate(cl, kind)
        err = None
    except exceptions.ElgasError as e:
        err = e
    took = w.now - t0
    if took > 2 * T * (dev.fed + 3):
        fail("%s: took %.0f s of virtual time" % (what, took))
    ctx.step(w.calls - c0)
    if err is None:
        exact(kind, got, what)
        if set(dev.asked[n0:]) - {kind} or not dev.asked[n0:]:
            fail("%s: asked the device for %s" % (what, dev.asked[n0:]))
        dev.taken[kind] = dev.taken.get(kind, 0) + replies(kind)
        if dev.taken[kind] > dev.genuine.get(kind, 0):
            fail("%s: reports success, but the device has given %d whole answers of this kind on this link, %d were needed" % (
                what, dev.genuine.get(kind, 0), dev.taken[kind]))
        return "ok"
    if must:
        fail("%s: the answer was there but the client raises %r" % (what, err))
    return err


def run(case, ctx):
    """ops on one client; deviations by reply number; 'reconnect' between the operations or not."""
    tk, enc, ops, devs, between = case
    from elgas import exceptions
    devs = {int(k): v for k, v in devs}
    w = World(reads_limit=30000)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, devs, ctx)
        cl = client(transport(tk, T), enc)
        cl.connect()
        clean = True
        for i, kind in enumerate(ops):
            what = "%s%s %s deviations %s, operation %d (%s)" % (tk, " encrypted" if enc else "", ops, devs, i, kind)
            first = dev.n
            link = w.open_links()[-1] if w.open_links() else None
            if link is not None:
                dev.arm(link)
            planned = [devs.get(k, "none") for k in range(first, first + (len(OBJ) if kind == "params" else 1))]
            must = clean and all(p in HARMLESS for p in planned)
            r = perform(cl, dev, w, kind, ctx, what, must)
            used = [devs.get(k, "none") for k in range(first, dev.n)] or planned[:1]
            ctx.state(tk, enc, kind, tuple(used), "ok" if r == "ok" else type(r).__name__)
            # a device error is reported as that error
            if clean and r != "ok" and used[-1] in ("deverr01", "deverr80") and all(u in CLEAN for u in used[:-1]):
                names = ref.error_names(int(used[-1][-2:], 16))
                if not any(k.__name__ in names for k in type(r).__mro__):
                    fail("%s: device error reported as %r" % (what, r))
            clean = clean and all(u in CLEAN for u in used)
            if between == "idle":
                w.now += (0.7, 40.0, 700.0, 90000.0)[(len(devs) + i + len(kind) + first) % 4] * T
            if between == "reconnect":
                try:
                    cl.disconnect()
                except exceptions.CommunicationError:
                    pass
                cl.connect()
                clean = True
        # whatever happened: reconnecting makes the client usable
        try:
            cl.disconnect()
        except exceptions.CommunicationError:
            pass
        cl.connect()
        dev.dev = {}
        dev.arm(w.open_links()[-1])
        for kind in (ops[-1], "time" if ops[-1] != "time" else "values"):
            perform(cl, dev, w, kind, ctx, "%s: after reconnecting, %s" % (case, kind), True)
        if len(w.open_links()) != 1:
            fail("%s: %d links open" % (case, len(w.open_links())))
        cl.disconnect()
    ctx.outcome(str(case))


def run_link(case, ctx):
    """Failures of connecting and disconnecting between operations."""
    tk, enc, kind, dv, fdis, fcon = case
    from elgas import exceptions
    w = World(reads_limit=30000)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, {0: dv}, ctx)
        cl = client(transport(tk, T), enc)
        for attempt in range(fcon):
            w.fail_connect[:] = [ConnectionRefusedError(111, "refused")]
            try:
                cl.connect()
                fail("%s: connecting reports success" % (case,))
            except exceptions.CommunicationError:
                pass
            ctx.step()
        cl.connect()
        perform(cl, dev, w, kind, ctx, str(case), dv in HARMLESS and kind != "params")
        link = w.open_links()[-1]
        if fdis == "shutdown":
            link.fail_shutdown[:] = [OSError(107, "Transport endpoint is not connected")]
        elif fdis == "close":
            link.fail_close[:] = [OSError(5, "Input/output error")]
        try:
            cl.disconnect()
        except exceptions.CommunicationError:
            pass
        if w.open_links():
            fail("%s: link left open" % (case,))
        for attempt in range(fcon):
            w.fail_connect[:] = [TimeoutError("timed out")]
            try:
                cl.connect()
                fail("%s: connecting reports success" % (case,))
            except exceptions.CommunicationError:
                pass
        cl.connect()
        dev.dev = {}
        dev.arm(w.open_links()[-1])
        for k in (kind, "params", "time"):
            perform(cl, dev, w, k, ctx, "%s: after reconnecting" % (case,), True)
            ctx.state(tk, enc, k, dv, fdis, fcon)
    ctx.outcome(str(case))


UNITS = {
    "stray": lambda w, req, bad, noise, kind, payload: [b"\x0d"], "noise": lambda w, req, bad, noise, kind, payload: [noise],
    "echo": lambda w, req, bad, noise, kind, payload: [req], "damaged": lambda w, req, bad, noise, kind, payload: [bad],
    "short": lambda w, req, bad, noise, kind, payload: [b"\x1b\x0d"],
    "wrongtype": lambda w, req, bad, noise, kind, payload: [ref.wire(0x84, ref.KINDS[kind], payload)],
    "foreign": lambda w, req, bad, noise, kind, payload: [ref.wire(ref.RESPONSE, 0x10, b"abc")],
    "cut": lambda w, req, bad, noise, kind, payload: [w[:9] + b"\x0d"],
}


def run_front(case, ctx):
    """Many complete unusable telegrams in front of every answer of an operation, then a second operation without."""
    tk, enc, kind, names, glued = case
    w = World(reads_limit=2000000)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, {}, ctx)
        cl = client(transport(tk, T), enc)
        cl.connect()
        units = [UNITS[n] for n in names]
        if glued:
            dev.front = [lambda *a: [b"".join(b"".join(u(*a)) for u in units)]]
        else:
            dev.front = units
        perform(cl, dev, w, kind, ctx, "%s%s %s behind %d times %s%s" % (tk, " encrypted" if enc else "", kind, len(names), sorted(set(names)), " in one piece" if glued else ""), True)
        dev.front = []
        perform(cl, dev, w, "time", ctx, "%s, the operation after that" % (case,), True)
        ctx.state(tk, enc, kind, len(names), tuple(sorted(set(names))), glued)
        cl.disconnect()
    ctx.outcome(str(case))


def run_calls(case, ctx):
    """The n-th call to the operating system of an operation fails, for every n."""
    tk, enc, ops, kind, name = case
    from elgas import exceptions
    from mc.props.c17 import exc
    n = 0
    while True:
        w = World(reads_limit=60000)
        what = "%s%s %s then %s with its call %d to the operating system failing (%s)" % (tk, " encrypted" if enc else "", ops, kind, n, name)
        w.where = what
        ctx.trace()
        with installed(w):
            dev = Device(w, enc, {}, ctx)
            cl = client(transport(tk, T), enc)
            cl.connect()
            for k in ops:
                perform(cl, dev, w, k, ctx, what, True)
            w.arm(n, exc(tk, name))
            r = perform(cl, dev, w, kind, ctx, what, False)
            w.fault, hit = None, w.hit
            if hit is None:
                if r != "ok":
                    fail("%s: %r although nothing failed" % (what, r))
                break
            ctx.state(tk, enc, kind, hit, r == "ok")
            try:
                cl.disconnect()
            except exceptions.CommunicationError:
                pass
            cl.connect()
            for k in (kind, "time"):
                perform(cl, dev, w, k, ctx, what + ", after reconnecting, " + k, True)
            if len(w.open_links()) != 1:
                fail("%s: %d links open" % (what, len(w.open_links())))
        n += 1
        if n > 5000:
            fail("%s: makes calls without end" % what)
    ctx.outcome(str(case))


def content_lists(what, q):
    """Lists of parameter records as bytes, most of them malformed."""
    recs = [len(d + b"...").to_bytes(2, "little") + bytes([t]) + d for t, d in objects()]
    good = b"".join(recs)
    if what == "cut":
        for k in range(1, len(good)):
            yield good[:k]
    elif what == "rest":
        for k in range(1, 4):
            for x in (b"\x00", b"\xff", b"\x03"):
                yield good + x * k
    elif what == "length":
        for at in range(3):
            for n in range(0, 400 if q else 2000):
                yield b"".join(recs[:at]) + n.to_bytes(2, "little") + recs[at][2:] + b"".join(recs[at + 1:])
    elif what == "type":
        for at in range(3):
            for t in range(256):
                yield b"".join(recs[:at]) + recs[at][:2] + bytes([t]) + recs[at][3:] + b"".join(recs[at + 1:])
    elif what == "bytes":
        for t in range(256):
            for n in range(0, 120, 7 if q else 1):
                for f in (0, 0x7F, 0xFF):
                    yield (n + 3).to_bytes(2, "little") + bytes([t]) + bytes([f]) * n


def run_content(case, ctx):
    """The device's own answers make no sense as a list of parameters: a library error, and the next operation works at once."""
    from elgas import exceptions
    from mc.props.c13 import reference
    tk, enc, what, lo, hi, q = case
    for body in list(content_lists(what, q))[lo:hi]:
        exp = reference(body)
        for cuts in ([], [1], [len(body) // 2], [len(body) - 1]):
            w = World(reads_limit=60000)
            name = "%s%s parameters %s in pages %s" % (tk, " encrypted" if enc else "", hx(body), cuts)
            w.where = name
            ctx.trace()
            with installed(w):
                dev = Device(w, enc, {}, ctx)
                cl = client(transport(tk, T), enc)
                cl.connect()
                parts = [body[x:y] for x, y in zip([0] + cuts, cuts + [len(body)])]
                dev.payloads = [i.to_bytes(2, "little") + b"\x01\x00" + bytes([int(i == len(parts) - 1)]) + part for i, part in enumerate(parts)]
                try:
                    got = operate(cl, "params")
                except exceptions.ElgasError as e:
                    got = e
                dev.payloads = None
                bad = isinstance(got, Exception)
                if exp is None and not bad:
                    fail("%s: returns %d objects" % (name, len(got)))
                if exp is not None and bad and all(x[2] for x in exp):
                    fail("%s: %r although it makes sense" % (name, got))
                if not bad:
                    if len(got) != len(exp):
                        fail("%s: %d objects of %d" % (name, len(got), len(exp)))
                    for (t, d, _), g in zip(exp, got):
                        m = L.compare(t, d, g)
                        if m:
                            fail("%s: %s" % (name, m))
                for k in ("params", "time"):
                    perform(cl, dev, w, k, ctx, name + ", then " + k, True)
                ctx.state(tk, enc, what, len(body), cuts, bad)
                cl.disconnect()
            if what in ("length", "type", "bytes") and q:
                break
    ctx.outcome(str(case))


def run_short(case, ctx):
    """Answers of every length, shorter than the fixed fields or with counts which lead nowhere."""
    from elgas import exceptions
    tk, enc, kind, payloads = case
    w = World(reads_limit=60000)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, {}, ctx)
        cl = client(transport(tk, T), enc)
        cl.connect()
        dev.payloads = [bytes.fromhex(x) for x in payloads]
        try:
            got = operate(cl, kind)
        except exceptions.ElgasError:
            pass
        else:
            last = bytes.fromhex(payloads[-1])
            if kind == "wtime" or (kind == "params" and not [x for x in payloads if len(x) > 10]):
                if got not in (None, []):
                    fail("%s: returns %r" % (case, got))
            elif ref.decode_response(kind, last) is None:
                fail("%s: returns %r" % (case, got))
            elif kind == "time":
                if got != ref.decode_response(kind, last)["time"]:
                    fail("%s: returns %r" % (case, got))
            elif kind == "params":
                fail("%s: returns %r" % (case, got))
            else:
                sut.check_answer(kind, last, got, str(case))
        dev.payloads = None
        try:
            cl.disconnect()
        except exceptions.CommunicationError:
            pass
        cl.connect()
        for k in (kind, "time"):
            perform(cl, dev, w, k, ctx, "%s, then %s" % (case, k), True)
        cl.disconnect()
        ctx.state(tk, enc, kind, len(payloads))
    ctx.outcome(str(case))


def fresh(kind, i):
    """The i-th answer: different from all others of its kind.  (payloads of the replies, what the operation returns)"""
    import datetime as dt
    x = (i * 2654435761 & 0xFFFFFFFF).to_bytes(4, "big") + i.to_bytes(3, "big")
    t = dt.datetime(2010, 1, 1) + dt.timedelta(seconds=i * 86399)
    if kind == "values":
        p = ref.time_bytes(t) + x * (1 + i % 5) + bytes(range(i % 200, i % 200 + 19))
        return [p], ref.decode_response("values", p)
    if kind == "time":
        p = ref.time_bytes(t) + bytes([(i * 37 >> 1) & 255 if i & 1 else 0]) + x
        return [p[:6] + p[6:][:i % 9]], t
    if kind == "wtime":
        return [b"\x00"], None
    if kind == "params":
        objs = [(ty, bytes(L.sample(ty, i % 200 + k, k != 1))) for k, ty in enumerate((47, 65, 48)[:1 + i % 3])]
        return [k.to_bytes(2, "little") + b"\x01\x00" + bytes([int(k == len(objs) - 1)]) + (len(d) + 3).to_bytes(2, "little") + bytes([ty]) + d
                for k, (ty, d) in enumerate(objs)], objs
    p = b"\x02" + x[:4] + x * (1 + i % 7)
    return [p], ref.decode_response(kind, p)


def run_fresh(case, ctx):
    """Very many operations on one client; no two answers of a kind are the same; now and then one fails."""
    from elgas import exceptions
    tk, enc, kinds, n, every, dv = case
    w = World(reads_limit=10 ** 7)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, {}, ctx)
        cl = client(transport(tk, T), enc)
        cl.connect()
        for i in range(n):
            kind = kinds[i % len(kinds)]
            what = "%s, operation %d (%s)" % (case, i, kind)
            failing = every and i % every == every - 1
            dev.dev = {dev.n: dv} if failing else {}
            dev.payloads, exp = fresh(kind, i)
            dev.arm(w.open_links()[-1])
            del dev.asked[:]
            must = not failing or dv in HARMLESS
            try:
                got, err = operate(cl, kind), None
            except exceptions.ElgasError as e:
                got, err = None, e
            ctx.step()
            if err is not None:
                if must:
                    fail("%s: the answer was there but the client raises %r" % (what, err))
            elif not must and dv not in ("wrongkind+", "after-junk", "after-stray", "after-noise", "crawl", "half1.5", "halfgenuine"):
                fail("%s: %s, and the client returns %r" % (what, dv, got))
            elif kind == "params":
                if len(got) != len(exp):
                    fail("%s: %d objects of %d" % (what, len(got), len(exp)))
                for (t, d), g in zip(exp, got):
                    m = L.compare(t, d, g)
                    if m:
                        fail("%s: %s" % (what, m))
            elif isinstance(exp, dict):
                for k, v in exp.items():
                    g = getattr(got, k)
                    if (bytes(g) if isinstance(v, bytes) else g) != v:
                        fail("%s: field %s is %r, the device sent %r" % (what, k, g, v))
            elif got != exp:
                fail("%s: returns %r, the device sent %r" % (what, got, exp))
            if failing and dv not in CLEAN:
                try:
                    cl.disconnect()
                except exceptions.CommunicationError:
                    pass
                cl.connect()
            w.links[:-1] = []
        ctx.state(tk, enc, tuple(kinds), every, dv)
    ctx.trace()
    ctx.outcome(str(case))


def run_changed(case, ctx):
    """Operations in a row on one client; every reply is one the device gave before, or differs from it in one byte."""
    tk, enc, kinds, rounds, between = case
    w = World(reads_limit=10 ** 6)
    w.where = str(case)
    with installed(w):
        dev = Device(w, enc, {}, ctx)
        cl = client(transport(tk, T), enc)
        cl.connect()
        for n, (kind, vs) in enumerate(zip(kinds, rounds)):
            what = "%s, operation %d (%s)" % (case, n, kind)
            if kind == "params":
                objs, pages = [], []
                for k, v in enumerate(vs):
                    here = [(ty, bytes(L.sample(ty, 3 * k + j + (5 * v if j == 11 else 0), True))) for j, ty in enumerate((47, 65, 34, 70) * 3)]
                    pages.append((12 * k).to_bytes(2, "little") + b"\x0c\x00" + bytes([k == len(vs) - 1])
                                 + b"".join((len(d) + 3).to_bytes(2, "little") + bytes([ty]) + d for ty, d in here))
                    objs += here
            else:
                p = bytearray(fresh(kind, 1)[0][0])
                p[-1] ^= vs[0]
                p[len(p) // 2] ^= vs[1] if kind != "time" else 0
                if kind == "wtime":
                    p = b"\x00"
                pages = [bytes(p)]
            dev.payloads = list(pages)
            got = operate(cl, kind)
            ctx.step()
            if dev.payloads:
                fail("%s: %d replies were not asked for" % (what, len(dev.payloads)))
            if kind == "params":
                if len(got) != len(objs):
                    fail("%s: %d objects of %d" % (what, len(got), len(objs)))
                for (ty, d), g in zip(objs, got):
                    m = L.compare(ty, d, g)
                    if m:
                        fail("%s: %s" % (what, m))
            elif kind == "time":
                if got != ref.decode_response(kind, pages[0])["time"]:
                    fail("%s: returns %r" % (what, got))
            elif kind == "wtime":
                if got is not None:
                    fail("%s: returns %r" % (what, got))
            else:
                sut.check_answer(kind, pages[0], got, what)
            if between:
                dev.payloads = None
                perform(cl, dev, w, between, ctx, what + ", then " + between, True)
            ctx.state(tk, enc, n, str(case))
        cl.disconnect()
    ctx.trace()
    ctx.outcome(str(case))


def replies(kind):
    return len(OBJ) if kind == "params" else 1


def families(tier):
    q = tier == "quick"
    kinds = list(ref.KINDS)

    def single():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for ops in itertools.product(kinds, repeat=2):
                    total = sum(replies(k) for k in ops)
                    for between in ("stay", "reconnect"):
                        yield [tk, enc, list(ops), [], between]
                        for n in range(total):
                            for d in DEVIATIONS:
                                yield [tk, enc, list(ops), [[n, d]], between]

    def idle():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for n in (2, 3):
                    for ops in itertools.product(kinds if n == 2 else ("time", "params", "wtime"), repeat=n):
                        yield [tk, enc, list(ops), [], "idle"]
                        if n == 2:
                            for k in range(sum(replies(o) for o in ops)):
                                for d in sorted(HARMLESS - {"none"}) + ["deverr01"]:
                                    yield [tk, enc, list(ops), [[k, d]], "idle"]

    def bulk():
        for enc in (False, True):
            for ops in itertools.product(kinds, repeat=2):
                total = sum(replies(k) for k in ops)
                if q and kinds.index(ops[0]) + kinds.index(ops[1]) & 1 and "params" not in ops:
                    continue
                for between in ("stay", "reconnect"):
                    for n in range(total):
                        for d in DEVIATIONS:
                            yield ["bulk", enc, list(ops), [[n, d]], between]

    def double():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for ops in (itertools.product(kinds, repeat=2) if not q else [("time", "time"), ("params",), ("arch", "wtime")]):
                    total = sum(replies(k) for k in ops)
                    for between in ("stay", "reconnect"):
                        for n, m in itertools.combinations(range(total), 2):
                            for d, e in itertools.product(DEVIATIONS, repeat=2):
                                if q and (n + m + DEVIATIONS.index(d) + DEVIATIONS.index(e)) % 4:
                                    continue
                                yield [tk, enc, list(ops), [[n, d], [m, e]], between]

    def triple():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for ops in itertools.product(("time", "arch", "wtime") if q else kinds, repeat=3):
                    total = sum(replies(k) for k in ops)
                    for n in range(total):
                        for d in DEVIATIONS:
                            yield [tk, enc, list(ops), [[n, d]], "stay"]

    def link():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for kind in kinds:
                    for d in ["none"] + DEVIATIONS:
                        for fdis in (None, "close") + (("shutdown",) if tk == "tcp" else ()):
                            for fcon in range(2 if q else 3):
                                yield [tk, enc, kind, d, fdis, fcon]

    def front():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for kind in kinds:
                    for glued in (False, True):
                        for a in UNITS:
                            for n in (1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 100) if q else (1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 100, 400, 1500):
                                yield [tk, enc, kind, [a] * n, glued]
                        for a, b in itertools.permutations(UNITS, 2):
                            for n in (1, 4) if q else (1, 2, 4, 16):
                                yield [tk, enc, kind, [a, b] * n, glued]

    def calls():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for kind in kinds:
                    for ops in ([],) if q else ([], ["time"], ["params"], [kind, kind]):
                        for name in (("reset", "timeout") if tk == "tcp" else ("serial", "io")) if q else (
                                ("reset", "timeout", "io", "pipe") if tk == "tcp" else ("serial", "sertime", "io")):
                            yield [tk, enc, ops, kind, name]

    def content():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for what in ("cut", "rest", "length", "type", "bytes"):
                    n = sum(1 for _ in content_lists(what, q))
                    step = 32 if what in ("cut", "rest") else 128
                    for lo in range(0, n, step):
                        yield [tk, enc, what, lo, lo + step, q]

    def short():
        full = {k: sut.RESP[k] for k in kinds if k != "params"}
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for k, v in full.items():
                    for n in range(len(v) + 1):
                        if n != 1:
                            yield [tk, enc, k, [hx(v[:n])]]
                for n in (0, 2, 3, 4):
                    yield [tk, enc, "params", [hx(bytes(n))]]
                # the object counts lead to the end of the index range or beyond
                for amount in (0, 1, 0x7FFF, 0xFFFE, 0xFFFF):
                    for second in (0, 1, 2, 0x8000, 0xFFFF):
                        for end in (0, 1):
                            yield [tk, enc, "params", ["0000" + hx(amount.to_bytes(2, "little")) + "00",
                                                       "0000" + hx(second.to_bytes(2, "little")) + "%02x" % end, "0000000001"]]

    def freshes():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                for ks in [[k] for k in kinds] + [["time", "arch"], ["params", "time"], ["arch", "archt"], kinds]:
                    for n in (300,) if q else (300, 1100):
                        yield [tk, enc, ks, n, 0, None]
                    for every, n in ((1, 12), (2, 24), (3, 60)):
                        for dv in DEVIATIONS:
                            yield [tk, enc, ks, n, every, dv]

    def changeds():
        for tk in ("tcp", "serial"):
            for enc in (False, True):
                vectors = [v for n in (1, 2, 3) for v in itertools.product((0, 1), repeat=n)]
                for between in (None, "time"):
                    for a in vectors:
                        for b in vectors:
                            yield [tk, enc, ["params"] * 2, [a, b], between]
                    two = list(itertools.product((0, 1), repeat=2))
                    for k in kinds:
                        if k != "params":
                            for j in kinds:
                                for r in itertools.product(two, repeat=3):
                                    if j == "params":
                                        yield [tk, enc, [k, j, k], r, between]
                                    elif not q or j == k:
                                        yield [tk, enc, [k, j, k], r, between]

    return [
        Family("changed", changeds, run_changed, "two or three operations in a row, each of whose replies is as it was before or not"),
        Family("fresh", freshes, run_fresh, "300 (thorough 1100) operations in a row whose answers all differ; every first to third deviating"),
        Family("content", content, run_content, "pages which hold no well-formed parameter list: cut, wrong lengths, wrong types, wrong bytes"),
        Family("short", short, run_short, "answers of every length, object counts up to the end of the range"),
        Family("front", front, run_front, "up to 100 (thorough 1500) unusable telegrams of 8 shapes in front of every answer"),
        Family("calls", calls, run_calls, "every call to the operating system an operation makes failing"),
        Family("single", single, run, "all pairs of operations x one deviation at any reply x reconnecting in between or not"),
        Family("idle", idle, run, "seconds to days between the operations"),
        Family("bulk", bulk, run, "a transport of the user's own which hands over what has arrived, not lines"),
        Family("double", double, run, "two deviations at any two replies" + (" (three pairs of operations)" if q else " of all pairs of operations")),
        Family("triple", triple, run, "three operations in a row, one deviation"),
        Family("link", link, run_link, "failing connects and disconnects around a deviating operation"),
    ]
