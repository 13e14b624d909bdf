"""C06 one outstanding request, answered only by its own response."""
import datetime as dt
import itertools

from mc import ref, session, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx

PROP, LEVEL = "C06", "model_checking"
RULE = ("a case is an operation history (send request kind / send unencodable request / deliver response kind / deliver device error / noise), all histories up "
        "to the depth bound are replayed step by step against the reference automaton idle|awaiting(kind), then the final state is probed; a state is "
        "(encryption, outstanding kind, last two operations)")
ASSUMPTIONS = ["'deliver' means the bytes are handed over and polled for before the next operation, as every client does"]

BAD = {"badparams": ("params", dict(object_count=65536)), "badwtime": ("wtime", dict(time=dt.datetime(1999, 12, 31))),
       "badarch": ("arch", dict(oldest=1 << 32)), "badpw": ("values", {}), "badarcht": ("archt", dict(amount=-1))}


def make_bad(name):
    kind, over = BAD[name]
    if name == "badpw":
        return sut.request("values", pw="\u20ac\u20ac")
    return sut.request(kind, **over)


def ops(tier, enc):
    o = [("req", k) for k in ref.KINDS] + [("resp", k) for k in ref.KINDS]
    o += [("bad", b) for b in BAD]
    o += [("err", k) for k in ("time", "params", "wtime")] + [("noise", "stray"), ("noise", "text"), ("noise", "damaged")]
    return o


class World:
    def __init__(self, enc, ctx):
        self.enc, self.ctx = enc, ctx
        self.c = sut.conn(enc)
        self.model = None                  # outstanding kind
        self.log = []

    def what(self):
        return "%s%s" % ("encrypted " if self.enc else "", " ".join("%s:%s" % o for o in self.log))

    def protocol_error(self, fn, *a):
        from elgas import exceptions
        try:
            v = fn(*a)
        except exceptions.LocalElgasProtocolError:
            return
        except Exception as e:
            fail("%s: refused with %s instead of a protocol error: %s" % (self.what(), type(e).__name__, e))
        fail("%s: not refused, gives %r" % (self.what(), v))

    def settled(self):
        r = sut.poll(self.c)
        if r[0] != "need":
            fail("%s: polling again gives %s %r" % (self.what(), r[0], r[1]))

    def step(self, op):
        from elgas import exceptions
        self.log.append(op)
        kind, arg = op
        self.ctx.step()
        self.ctx.state(self.enc, self.model, tuple(self.log[-2:]))
        if kind == "req":
            if self.model is None:
                w = self.c.send(sut.request(arg))
                sut.check_request(arg, w, self.enc)
                self.model = arg
            else:
                self.protocol_error(self.c.send, sut.request(arg))
        elif kind == "bad":
            if self.model is not None:
                self.protocol_error(self.c.send, make_bad(arg))
            else:
                try:
                    w = self.c.send(make_bad(arg))
                except Exception:
                    w = None
                if w is not None:
                    fail("%s: a request that cannot be encoded was sent as %s" % (self.what(), hx(w)))
        elif kind == "resp":
            self.c.receive_data(sut.response_wire(arg, sut.RESP[arg], self.enc))
            r = sut.poll(self.c)
            if self.model == arg:
                if r[0] != "answer":
                    fail("%s: answer not delivered: %s %r" % (self.what(), r[0], r[1]))
                sut.check_answer(arg, sut.RESP[arg], r[1], self.what())
                self.model = None
            elif r[0] != "error" or not isinstance(r[1], exceptions.LocalElgasProtocolError):
                fail("%s: a response nobody waits for is not refused with a protocol error: %s %r" % (self.what(), r[0], r[1]))
            self.settled()
        elif kind == "err":
            self.c.receive_data(sut.response_wire(arg, b"\x02", self.enc))
            r = sut.poll(self.c)
            if r[0] != "error":
                fail("%s: device error gives %s %r" % (self.what(), r[0], r[1]))
            if self.model == arg:
                if type(r[1]).__name__ != "SettingArchiveFull":
                    fail("%s: device error reported as %r" % (self.what(), r[1]))
                self.model = None
            elif not isinstance(r[1], exceptions.LocalElgasProtocolError):
                fail("%s: an error response nobody waits for is not refused with a protocol error: %r" % (self.what(), r[1]))
            self.settled()
        elif kind == "noise":
            if arg == "stray":
                b = b"\x0d"
            elif arg == "text":
                b = b"\x02\xfe\x86hello\x0d"
            else:
                f = bytearray(ref.frame(ref.RESPONSE, ref.KINDS[self.model or "time"], sut.RESP[self.model or "time"]))
                f[-2] ^= 1
                b = ref.stuff(bytes(f))
            self.c.receive_data(b)
            r = sut.poll(self.c)
            if r[0] == "answer":
                fail("%s: noise delivered as %r" % (self.what(), r[1]))
            self.settled()

    def probe(self):
        """The outstanding request is still answered; afterwards the session is idle."""
        if self.model is not None:
            self.step(("resp", self.model))
        self.step(("req", "arch"))
        self.step(("resp", "arch"))


def run_history(case, ctx):
    enc, prefix, tier = case
    for last in ops(tier, enc):
        ctx.trace()
        w = World(enc, ctx)
        for o in prefix:
            w.step(tuple(o))
        w.step(last)
        ctx.outcome(enc, w.model, tuple(map(tuple, prefix))[-1:], last)
        w.probe()


def run_glued(case, ctx):
    """Several responses in one chunk: those before the right one are refused, those behind it disappear."""
    enc, kind, seq = case
    w = World(enc, ctx)
    if kind:
        w.step(("req", kind))
    for cutmode in (0, 1):
        if cutmode:
            w = World(enc, ctx)
            if kind:
                w.step(("req", kind))
        ctx.trace()
        data = b"".join(sut.response_wire(k, sut.RESP[k], enc) for k in seq)
        if cutmode:
            w.c.receive_data(data[:7])
            w.c.receive_data(data[7:])
        else:
            w.c.receive_data(data)
        answered = False
        for k in seq:
            if answered:
                break
            r = sut.poll(w.c)
            ctx.step()
            ctx.state(enc, kind, "glued", tuple(seq), k)
            if k == kind:
                if r[0] != "answer":
                    fail("awaiting %s, responses %s in one chunk: answer not delivered: %s %r" % (kind, seq, r[0], r[1]))
                sut.check_answer(k, sut.RESP[k], r[1])
                answered = True
            elif r[0] != "error":
                fail("awaiting %s, responses %s in one chunk: %s gives %s %r" % (kind, seq, k, r[0], r[1]))
        r = sut.poll(w.c)
        if r[0] != "need":
            fail("awaiting %s, responses %s in one chunk: something left: %s %r" % (kind, seq, r[0], r[1]))
        if answered:
            w.model = None
        w.log.append(("glued", "+".join(seq)))
        w.probe()
    ctx.outcome(enc, kind, tuple(seq))


def run_midway(case, ctx):
    """Refused operations between the parts of a response: nothing of what has been received is lost."""
    enc, kind, refused, polled = case
    w = sut.response_wire(kind, sut.RESP[kind], enc)
    for cut in range(len(w) + 1):
        ctx.trace()
        s = World(enc, ctx)
        s.step(("req", kind))
        s.c.receive_data(w[:cut])
        s.log.append(("received", "%d of %d bytes" % (cut, len(w))))
        if polled and cut < len(w):
            s.settled()
        for op in refused:
            s.step(tuple(op))
        if cut < len(w):
            s.c.receive_data(w[cut:])
        r = sut.poll(s.c)
        if r[0] != "answer":
            fail("%s: answer not delivered: %s %r" % (s.what(), r[0], r[1]))
        sut.check_answer(kind, sut.RESP[kind], r[1], s.what())
        s.settled()
        s.model = None
        s.probe()
        ctx.state(enc, kind, cut, tuple(map(tuple, refused)), polled)
    ctx.outcome(str(case))


def run_rounds(case, ctx):
    """Long alternating histories on one session: n exchanges of rotating kinds with refused operations between."""
    enc, start, n = case
    w = World(enc, ctx)
    ks = list(ref.KINDS)
    for i in range(n):
        k, o = ks[(start + i) % 6], ks[(start + 2 * i + 1) % 6]
        w.step(("req", k))
        w.step(("req", o))
        if o != k:
            w.step(("resp", o))
        if i % 3 == 0:
            w.step(("bad", "badparams"))
        w.step(("resp", k))
        w.step(("resp", k))
        del w.log[:-3]
    w.probe()
    ctx.outcome(enc, start, n)


def run_refusals(case, ctx):
    """Device errors of every kind, whatever is outstanding: only the one of the outstanding request ends it."""
    from elgas import exceptions
    enc, kind, other, answered = case
    for e in range(1, 256):
        ctx.trace()
        w = World(enc, ctx)
        if kind:
            w.step(("req", kind))
        w.log.append(("error %02x" % e, other))
        for _ in range(1 + answered):
            w.c.receive_data(sut.response_wire(other, bytes([e]), enc))
            r = sut.poll(w.c)
            ctx.step()
            ctx.state(enc, kind, other, e)
            if r[0] != "error":
                fail("%s: gives %s %r" % (w.what(), r[0], r[1]))
            own = kind == other and w.model == kind
            if own == isinstance(r[1], exceptions.LocalElgasProtocolError):
                fail("%s: reported as %r" % (w.what(), r[1]))
            if own:
                w.model = None
            w.settled()
        if w.model and answered:
            w.protocol_error(w.c.send, sut.request(other))
        w.probe()
    ctx.outcome(enc, kind, other, answered)


def run_repeat(case, ctx):
    """The same operation over and over, in front of and during an outstanding request."""
    enc, op, kind, n = case
    w = World(enc, ctx)
    if kind:
        w.step(("req", kind))
    for i in range(n):
        if op[0] == "req" and w.model is None:
            break
        w.step(tuple(op))
        if op[0] in ("resp", "err") and w.model is None and kind:
            w.step(("req", kind))
        del w.log[:-3]
    w.probe()
    ctx.trace()
    ctx.outcome(enc, tuple(op), kind, n)


def families(tier):
    q = tier == "quick"

    def hist(depth, encs=(False, True)):
        def gen():
            for enc in encs:
                for p in itertools.product(ops(tier, enc), repeat=depth - 1):
                    yield [enc, [list(o) for o in p], tier]
        return gen

    def glued():
        for enc in (False, True):
            for kind in ref.KINDS:
                for o in ref.KINDS:
                    for before in (0, 1, 2):
                        for behind in (3, 8, 30, 130):
                            yield [enc, kind, [o if o != kind else "time" if kind != "time" else "arch"] * before + [kind] + [o] * behind]
            for kind in [None] + list(ref.KINDS):
                for n in (1, 2) if q else (1, 2, 3):
                    for seq in itertools.product(ref.KINDS, repeat=n):
                        yield [enc, kind, list(seq)]

    def midway():
        refused = [("req", k) for k in ref.KINDS] + [("bad", b) for b in BAD]
        for enc in (False, True):
            for kind in ref.KINDS:
                for polled in (0, 1):
                    for o in refused:
                        yield [enc, kind, [o], polled]
                        yield [enc, kind, [o] * 3, polled]
                    if not q:
                        for p in itertools.product(refused, repeat=2):
                            yield [enc, kind, list(p), polled]

    def rounds():
        for enc in (False, True):
            for s in range(6):
                for n in list(range(1, 14)) + ([40, 130, 300] if q else [40, 130, 300, 700, 1500]):
                    yield [enc, s, n]

    def refusals():
        for enc in (False, True):
            for kind in [None] + list(ref.KINDS):
                for other in ref.KINDS:
                    for n in (0, 1):
                        yield [enc, kind, other, n]

    def repeat():
        for enc in (False, True):
            for op in ops(tier, enc):
                for kind in (None, "time", "arch") if q else [None] + list(ref.KINDS):
                    for n in (8, 33, 300) if q else (8, 33, 300, 1100, 5000):
                        yield [enc, list(op), kind, n]

    fams = [Family("depth%d" % d, hist(d), run_history, "all histories of length %d" % d) for d in (1, 2, 3)]
    fams.append(Family("clocks", at_paces(hist(1), hist(2)), timed(run_history), "all histories of up to 2 steps, the clocks of this computer running at ten paces"))
    fams.append(Family("clocks2", at_paces(rounds), timed(run_rounds), "the rounds with the clocks running at ten paces"))
    fams.append(Family("glued", glued, run_glued, "up to 2 (thorough 3) responses in one chunk, up to 130 behind the right one"))
    fams.append(Family("midway", midway, run_midway, "refused sends between the parts of a response, cut at every byte"))
    fams.append(Family("refusals", refusals, run_refusals, "every device error of every kind x what is outstanding, once or twice"))
    fams.append(Family("repeat", repeat, run_repeat, "one operation repeated up to 300 (thorough 5000) times"))
    fams.append(Family("rounds", rounds, run_rounds, "1-13, 40, 130, 300 (thorough 1500) consecutive exchanges"))
    if q:
        fams.append(Family("depth4", hist(4, (False,)), run_history, "all plain histories of length 4"))
    else:
        fams.append(Family("depth4", hist(4), run_history, "all histories of length 4"))
        fams.append(Family("depth5", hist(5, (False,)), run_history, "all plain histories of length 5"))
    return fams
