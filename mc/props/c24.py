"""C24 sessions hold on to nothing: memory does not grow with the number of exchanges."""
import datetime as dt
import gc
import itertools
import sys
import types

from mc import layouts as L
from mc import ref, sut
from mc.core import Family, fail
from mc.world import FakeSocket, World, installed, transport

PROP, LEVEL = "C24", "model_checking"
RULE = ("a case is a cycle of whole exchanges (answered, refused by the device, unusable telegrams in front, wrong kind, unsolicited, unencodable, "
        "refused second request, link failure and reconnect, ...) which leads from idle back to idle; it is repeated with contents that "
        "never repeat, and what is reachable from the session and from the library's modules, and what the process has allocated, is measured between "
        "blocks of rounds; a state is (cycle, encryption, block)")
ASSUMPTIONS = ["what grows for the first 1100 rounds only (a bounded cache or history) is not growth",
               "while an unterminated telegram is arriving its bytes have to be kept"]
WARM, N = 1100, 256


def reach(roots):
    """Bytes of everything reachable without entering modules, foreign classes, frames or the fake world."""
    seen, total, todo = set(), 0, list(roots)
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None:
            continue
        t = type(o)
        if isinstance(o, (types.ModuleType, types.FrameType, types.BuiltinFunctionType, World)) or (t.__module__ or "").startswith(("mc.", "structlog", "logging", "_")):
            continue
        if isinstance(o, type):
            if not (o.__module__ or "").startswith("elgas"):
                continue
            seen.add(id(o))
            todo += [v for k, v in vars(o).items() if not k.startswith("__attrs")]
            continue
        if isinstance(o, types.FunctionType):
            if not (o.__module__ or "").startswith("elgas"):
                continue
            seen.add(id(o))
            todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
            todo += [c.cell_contents for c in o.__closure__ or () if cell_full(c)]
            todo += list(vars(o).values())
            continue
        seen.add(id(o))
        try:
            total += sys.getsizeof(o)
        except Exception:
            pass
        todo += gc.get_referents(o)
    return total


def cell_full(c):
    try:
        c.cell_contents
    except ValueError:
        return False
    return True


def library():
    return [v for name, m in list(sys.modules.items()) if name.split(".")[0] == "elgas" for k, v in list(vars(m).items()) if not k.startswith("__")]


def stamp(i):
    return dt.datetime(2001, 1, 1) + dt.timedelta(seconds=i * 7919)


def content(kind, i):
    """A valid payload of its own for every round."""
    x = i.to_bytes(4, "big") + (i * 2654435761 & 0xFFFFFFFF).to_bytes(4, "big")
    if kind == "values":
        return ref.time_bytes(stamp(i)) + x * 4 + bytes(range(19))
    if kind == "time":
        return ref.time_bytes(stamp(i)) + b"\x00" + x + b"\x01\x02"
    if kind == "wtime":
        return b"\x00"
    if kind == "params":
        return b"\x01\x00\x02\x00\x01" + x * 3
    return b"\x01" + x[:4] + x * 5


def args(kind, i):
    return {"values": {}, "time": {}, "wtime": dict(time=stamp(i)), "params": dict(object_count=i & 0xFFFF), "arch": dict(oldest=i), "archt": dict(time=stamp(i))}[kind]


class Session:
    def __init__(self, enc):
        self.enc = enc
        self.c = sut.conn(enc)

    def roots(self):
        return [self.c]

    def wire(self, kind, payload, **k):
        return sut.response_wire(kind, payload, self.enc, **k)

    def get(self, what, w, exp):
        for x in w if isinstance(w, list) else [w]:
            self.c.receive_data(x)
            r = sut.poll(self.c)
            if r[0] != "need":
                break
        if r[0] != exp:
            fail("%s gives %s %r" % (what, r[0], r[1]))

    def do(self, ev, i):
        from elgas import exceptions
        name, kind = ev
        other = "time" if kind != "time" else "arch"
        c = self.c
        pay = content(kind, i)
        if name == "unsolicited":
            self.get("an unsolicited response", self.wire(kind, pay), "error")
            return
        if name == "noiseidle":
            self.get("noise", b"\x02\xfe" + content("arch", i).replace(b"\x0d", b"") + b"\x0d", "need")
            return
        if name == "stray":
            for x in (b"\x0d", b"", b"\x0d"):
                self.get("a stray terminator", x, "need")
        if name == "new":
            self.c = c = sut.conn(self.enc, addr=(i & 0xFFFF, 1, 2, 3))
        if name == "bad":
            try:
                c.send(sut.request("params", object_count=65536 + i))
            except Exception:
                return
            fail("an unencodable request was sent")
        if name == "reset":
            c.send(sut.request(kind, **args(kind, i)))
            c.receive_data(self.wire(kind, pay)[:-3])
            c.reset() if hasattr(c, "reset") else None
            if not hasattr(c, "reset"):
                self.c = sut.conn(self.enc)
            return
        c.send(sut.request(kind, **args(kind, i)))
        w = self.wire(kind, pay)
        if name == "stray":
            for x in (b"\x0d", b"", b"\x0d"):
                self.get("a stray terminator", x, "need")
        if name == "second":
            try:
                c.send(sut.request(other, **args(other, i)))
            except exceptions.LocalElgasProtocolError:
                pass
            else:
                fail("a second request was sent")
        if name == "err":
            self.get("a device error", self.wire(kind, bytes([1 + i % 255])), "error")
            return
        if name == "damaged":
            bad = bytearray(w)
            bad[-3] ^= 0x40 if bad[-3] ^ 0x40 not in (0x0D, 0x1B, 0x8D) else 0x20
            self.get("a damaged response", bytes(bad), "need")
        elif name == "noise":
            self.get("noise", b"\x02\xfe\x86" + content("arch", i).replace(b"\x0d", b"") + b"\x0d" + b"\x0d", "need")
        elif name == "wrong":
            self.get("a response of another kind", self.wire(other, content(other, i)), "error")
        elif name == "unknown":
            self.get("a response of no known service", ref.wire(ref.RESPONSE, 0x99, content("arch", i)), "need")
        elif name == "foreign":
            self.get("a response sealed with another key", ref.wire(ref.ENC_RESPONSE, ref.KINDS[kind], ref.seal(pay, bytes(range(16)), 1)), "need")
        elif name == "undecodable":
            if kind != "wtime":
                self.get("a response too short", self.wire(kind, b"\x63" + i.to_bytes(3, "big")), "error")
        if name == "bytes":
            self.get("a response in pieces", [w[j:j + 5] for j in range(0, len(w), 5)], "answer")
        elif name == "behind":
            self.get("a response with left-overs", w + b"\x02\xfe" + pay.replace(b"\x0d", b""), "answer")
        else:
            self.get("a response", w, "answer")


def grows(cycle, rounds, roots, ctx, blocks=True):
    """Runs the rounds; fails when memory grows with them.  A growth that was seen must go on over two far longer blocks."""
    i = 0

    def run(n):
        nonlocal i
        for j in range(i, i + n):
            rounds(j)
        i += n
        gc.collect()
        gc.collect()
        return sys.getallocatedblocks(), reach(roots() + library())

    m = [run(WARM), run(N), run(N)]
    for block in range(3):
        ctx.state(str(cycle), block)
    n = N
    if m[2][1] - m[0][1] >= N or m[2][0] - m[0][0] >= N:
        n = 1024
        m = [run(0), run(n), run(n)]
    ctx.step(i)
    if n == N:
        return
    if m[2][1] - m[0][1] >= n:
        fail("%s: what is reachable grows from %d to %d to %d bytes in %d + %d rounds" % (cycle, m[0][1], m[1][1], m[2][1], n, n))
    if blocks and m[2][0] - m[1][0] >= n * 0.9 and m[1][0] - m[0][0] >= n * 0.9:
        fail("%s: the process grows from %d to %d to %d allocated blocks in %d + %d rounds" % (cycle, m[0][0], m[1][0], m[2][0], n, n))


def run_session(case, ctx):
    enc, cycle = case
    s = Session(enc)

    def rounds(i):
        for ev in cycle:
            s.do(ev, i)
    grows("%s%s" % ("encrypted " if enc else "", cycle), rounds, s.roots, ctx)
    ctx.outcome(str(case))


class Line:
    """A transport whose device answers with contents of their own."""

    def __init__(self, enc):
        self.enc, self.i, self.how, self.rx = enc, 0, "ok", []

    def connect(self):
        pass

    def disconnect(self):
        self.rx = []

    def send(self, data):
        from elgas import exceptions
        if self.how == "sendfails":
            raise exceptions.CommunicationError("cannot send %d" % self.i)
        f, p = sut.decode_request(data, self.enc)
        kind = {v: k for k, v in ref.KINDS.items()}[f["service"]]
        pay = content(kind, self.i)
        if kind == "params":
            o = p[10] + 256 * p[11]
            objs = [(t, bytes(L.sample(t, self.i % 7, True))) for t in (47, 65, 48)]
            t, d = objs[o]
            pay = o.to_bytes(2, "little") + b"\x01\x00" + bytes([int(o == 2)]) + (len(d) + 3).to_bytes(2, "little") + bytes([t]) + d
        w = sut.response_wire(kind, b"\x04" if self.how == "deverr" else pay, self.enc)
        self.rx = {"ok": [w], "deverr": [w], "noise": [b"\x02\xfe" + b"%d" % self.i + b"\x0d", w], "lost": [w[:-4]], "silence": [],
                   "other": [sut.response_wire("time" if kind != "time" else "wtime", content("time", self.i) if kind != "time" else b"\0", self.enc)]}[self.how]

    def recv(self):
        from elgas import exceptions
        if not self.rx:
            raise exceptions.CommunicationError("nothing received %d" % self.i)
        return self.rx.pop(0)


def run_client(case, ctx):
    from elgas import exceptions
    from mc.props.c04 import client
    from mc.props.c07 import operate
    enc, cycle = case
    line = Line(enc)
    cl = client(line, enc)
    cl.connect()

    def rounds(i):
        line.i = i
        for kind, how in cycle:
            line.how = how
            try:
                operate(cl, kind)
                ok = True
            except exceptions.ElgasError:
                ok = False
            if ok != (how in ("ok", "noise")):
                fail("%s: %s with %s %s" % (cycle, kind, how, "succeeds" if ok else "fails"))
            if how in ("lost", "silence", "other", "sendfails"):
                cl.disconnect()
                cl.connect()
    grows("client%s %s" % (" encrypted" if enc else "", cycle), rounds, lambda: [cl], ctx)
    ctx.outcome(str(case))


def run_link(case, ctx):
    """Transports over the fake operating system: connect, exchange, (fail,) disconnect."""
    from elgas import exceptions
    tk, how = case
    w = World(reads_limit=10 ** 9)
    w.where = str(case)
    with installed(w):
        tr = transport(tk, 5.0)

        def rounds(i):
            w.links.clear()
            w.fail_connect[:] = [OSError(111, "refused")] if how == "refused" else []
            try:
                tr.connect()
            except exceptions.CommunicationError:
                tr.connect()
            link = w.links[-1]
            if how == "sendfails":
                link.fail_send[:] = [BrokenPipeError(32, "Broken pipe")] if isinstance(link, FakeSocket) else [OSError(5, "I/O error")]
            try:
                tr.send(b"request %d\r" % i)
            except exceptions.CommunicationError:
                pass
            link.feed(b"answer %d\r" % i)
            if how == "more":
                link.feed(b"left over %d" % i)
            if how == "eof":
                link.feed("eof")
            for _ in range(2 if how in ("eof", "silence") else 1):
                try:
                    tr.recv()
                except exceptions.CommunicationError:
                    pass
            if how == "closefails":
                link.fail_close[:] = [OSError(5, "Input/output error")]
            try:
                tr.disconnect()
            except exceptions.CommunicationError:
                pass
        grows("%s transport %s" % (tk, how), rounds, lambda: [tr], ctx, blocks=False)
    ctx.outcome(str(case))


def run_decode(case, ctx):
    """Decoding, exporting and importing objects, call-in messages and frames."""
    what, t = case
    from elgas import application, frames, parser, utils
    from elgas.parameters import factory
    from mc.props import c20
    if what == "call":
        base = c20.base(1)

        def rounds(i):
            base[40:44] = bytes((i >> s & 7) << 4 | (i >> s + 3 & 7) for s in (0, 6, 12, 18))
            base[-36:-32] = i.to_bytes(4, "little")
            w = ref.wire(ref.REQUEST, 0x87, bytes(base))
            application.CallRequest.from_bytes(frames.Request.from_bytes(utils.return_characters(w)).data)
    else:
        base = bytes(L.sample(t, 3, True))

        def free(o):
            return not (t == 48 and o == 34) and all(L.expect(t, base[:o] + bytes([v]) + base[o + 1:]) is not None for v in (0, 1, 0x20, 0x3F))
        spots = [o for o in range(1, min(len(base), 40)) if free(o)]

        def rounds(i):
            d = bytearray(base)
            for n, o in enumerate(spots):
                d[o] = i >> n % 3 * 5 & 0x1F | 0x20
            try:
                o = parser.ScadaParameterParser().parse((len(d) + 3).to_bytes(2, "little") + bytes([t]) + bytes(d))[0]
            except ValueError:
                return
            if what == "export":
                s = schema()
                s.load(s.dump(o))
        schema = factory.ParameterSchemaFactory.by_parameter_id(t)
    grows("%s of type %s" % (what, t), rounds, lambda: [], ctx)
    ctx.outcome(str(case))


NAMES = ["ok", "err", "damaged", "noise", "wrong", "unknown", "foreign", "undecodable", "bytes", "behind", "second", "bad", "reset", "unsolicited", "noiseidle", "new", "stray"]
HOW = ["ok", "deverr", "noise", "lost", "silence", "other", "sendfails"]


def families(tier):
    q = tier == "quick"
    kinds = list(ref.KINDS)

    def sessions():
        for enc in (False, True):
            for n in NAMES:
                for k in kinds:
                    yield [enc, [[n, k]]]
            for a, b in itertools.permutations(NAMES, 2):
                if q and a > b:
                    continue
                for ka, kb in ([("arch", "time")] if q else itertools.product(("time", "arch", "params"), repeat=2)):
                    yield [enc, [[a, ka], [b, kb]]]

    def clients():
        for enc in (False, True):
            for k in kinds:
                for h in HOW:
                    yield [enc, [[k, h]]]
            for a, b in itertools.product(HOW, repeat=2):
                yield [enc, [["time", a], ["arch", b]]]

    def links():
        for tk in ("tcp", "serial"):
            for how in ("ok", "refused", "sendfails", "more", "eof", "silence", "closefails"):
                yield [tk, how]

    def decodes():
        yield ["call", None]
        for t in L.TYPES:
            if t not in L.UNDECODABLE:
                yield ["decode", t]
                yield ["export", t]

    return [
        Family("sessions", sessions, run_session, "every kind of exchange, all pairs of kinds, each repeated 1100 + 512 times"),
        Family("clients", clients, run_client, "client operations ending in every way, with reconnecting"),
        Family("links", links, run_link, "transports connected, used and disconnected"),
        Family("decodes", decodes, run_decode, "objects, exports and call-in messages"),
    ]
