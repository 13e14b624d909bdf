"""C21 sessions are independent of each other."""
import itertools
import sys
import threading

from mc import layouts as L
from mc import ref, sut
from mc.core import Family, Violation, fail, hx
from mc.twins import twins
from mc.props import c20
from mc.props.c07 import expect_error

PROP, LEVEL = "C21", "model_checking"
RULE = ("a case is a pair (or triple) of sessions and an interleaving of their steps, or a pair of operations in two real threads and a block of "
        "preemption points (one thread is stopped at a chosen source line of elgas while the other one runs, with bound 2 also the "
        "other one is stopped); every observation is compared with what the reference says the session alone would show, and everything "
        "returned earlier is compared with a snapshot; a state is (pair, steps done) or (operation, source line, other operation)")
ASSUMPTIONS = ["preemptions at source line granularity inside elgas (not inside the interpreter's C functions)",
               "one object is never shared between the two threads"]

KEYS = [sut.KEY, bytes(range(0x90, 0xA0))]


# ------------------------------------------------------------------ sessions as lists of steps

def session(spec):
    """spec: [kind, key index or None, key id, variant] -> list of steps; every step checks itself."""
    kind, ki, kid, variant = spec
    enc = ki is not None
    key = KEYS[ki] if enc else None
    pw = "%s%d%02d" % (kind[:3], 7 if enc else 3, kid)
    addr = (kid * 257, kid, 99 + kid, 7)
    payload = (sut.RESP if variant != "alt" else sut.RESP_ALT)[kind]
    w = sut.response_wire(kind, payload, enc, key, kid)
    k = len(w) // 2
    s = {}
    name = "session %s" % (spec,)

    def make():
        s["c"] = sut.conn(enc, key, kid, pw, addr)

    def send():
        out = s["c"].send(sut.request(kind, pw=pw))
        f, data = sut.decode_request(out, enc, key, kid)
        if (f["dst"], f["src"]) != ((addr[0], addr[1]), (addr[2], addr[3])):
            fail("%s: request carries addresses %r %r" % (name, f["dst"], f["src"]))
        if f["service"] != ref.KINDS[kind] or not ref.matches(ref.request_layout(kind, pw, **sut.REQ_ARGS[kind]), data):
            fail("%s: request is %02x %s" % (name, f["service"], data.hex()))

    def feed(b):
        def step():
            s["c"].receive_data(b)
        return step

    def need():
        r = sut.poll(s["c"])
        if r[0] != "need":
            fail("%s: polling gives %s %r before the response is complete" % (name, r[0], r[1]))

    def answer():
        r = sut.poll(s["c"])
        if r[0] != "answer":
            fail("%s: polling gives %s %r" % (name, r[0], r[1]))
        sut.check_answer(kind, payload, r[1], name)
        s["got"] = r[1]

    def again():
        sut.check_answer(kind, payload, s["got"], name + ": answer looked at later")

    def error():
        expect_error(sut.poll(s["c"]), 0x10, name)

    def refused():
        r = sut.poll(s["c"])
        if r[0] != "error":
            fail("%s: an answer to something else gives %s %r" % (name, r[0], r[1]))

    other = "time" if kind != "time" else "arch"
    if variant == "deverr":
        return [make, send, feed(sut.response_wire(kind, b"\x10", enc, key, kid)), error, send]
    if variant == "wrong":
        return [make, send, feed(sut.response_wire(other, sut.RESP[other], enc, key, kid)), refused, feed(w), answer]
    if variant == "junk":
        return [make, send, feed(b"\x02\xfe\x86\x6c\x0d" + w[:k]), need, feed(w[k:]), answer]
    if variant == "twice":
        return [make, send, feed(w), answer, send, feed(w), answer]
    return [make, send, feed(w[:k]), need, feed(w[k:]), answer, again]


def alike(enc):
    """Configurations which differ from the base in one small thing: [(what, (key, key id, password, addresses))]."""
    key, kid, pw, addr = KEYS[1], 3, "pa5Sw0", (0x1234, 0x56, 0x0703, 0x09)
    out = []
    if enc:
        out += [("key: " + what, (k, kid, pw, addr)) for what, k in twins(key)]
        out += [("key byte %d ^ %02x" % (i, m), (key[:i] + bytes([key[i] ^ m]) + key[i + 1:], kid, pw, addr)) for i in range(16) for m in (1, 0x20, 0x80, 0xFF)]
        out += [("key id %d" % k, (key, k, pw, addr)) for k in (1, 2, 4, 5, 6, 7)]
    for i in range(6):
        for ch in (pw[i].swapcase(), chr(ord(pw[i]) ^ 1), "\xe9", "0", "a"):
            out.append(("password %d %r" % (i, ch), (key, kid, pw[:i] + ch + pw[i + 1:], addr)))
    out += [("password " + p, (key, kid, p, addr)) for p in (pw[::-1], pw[1:] + pw[0], pw[1] + pw[0] + pw[2:], pw.upper(), pw.lower())]
    for i in range(4):
        for d in (1, 2, 0x80) + ((0x100, 0x8000) if i % 2 == 0 else ()):
            out.append(("address %d ^ %x" % (i, d), (key, kid, pw, addr[:i] + (addr[i] ^ d,) + addr[i + 1:])))
    out += [("addresses exchanged", (key, kid, pw, addr[2:] + addr[:2])), ("address bytes exchanged", (key, kid, pw, (0x3412, 0x56, 0x0307, 0x09)))]
    base = (key, kid, pw, addr)
    return [("nothing", base)] + [(w, c) for w, c in out if c != base]


def run_alike(case, ctx):
    """Two sessions whose configurations are nearly the same: each goes on with its own."""
    enc, kind, part, parts = case
    every = alike(enc)
    base = every[0][1]
    for what, conf in every[part::parts]:
        for order in ("abab", "aabb", "ba", "aba"):
            ctx.trace()
            who = {}
            for name, (key, kid, pw, addr) in (("b", conf), ("a", base)) if order == "ba" else (("a", base), ("b", conf)):
                who[name] = (sut.conn(enc, key, kid, pw, addr), key, kid, pw, addr)
            waiting = {}

            def send(x):
                c, key, kid, pw, addr = who[x]
                f, data = sut.decode_request(c.send(sut.request(kind, pw=pw)), enc, key, kid)
                ctx.step()
                if (f["dst"], f["src"]) != (addr[:2], addr[2:]):
                    fail("%s, %s: session %s sends addresses %r %r" % (what, order, x, f["dst"], f["src"]))
                if not ref.matches(ref.request_layout(kind, pw, **sut.REQ_ARGS[kind]), data):
                    fail("%s, %s: session %s sends %s" % (what, order, x, data.hex()))
                waiting[x] = sut.response_wire(kind, (sut.RESP if x == "a" else sut.RESP_ALT)[kind], enc, key, kid)

            def take(x):
                c = who[x][0]
                c.receive_data(waiting.pop(x))
                r = sut.poll(c)
                ctx.step()
                if r[0] != "answer":
                    fail("%s, %s: session %s gets no answer: %s %r" % (what, order, x, r[0], r[1]))
                sut.check_answer(kind, (sut.RESP if x == "a" else sut.RESP_ALT)[kind], r[1], "%s, %s: session %s" % (what, order, x))

            if order == "abab":
                send("a"), send("b"), take("a"), take("b"), send("b"), send("a"), take("a"), take("b")
            elif order == "aabb":
                send("a"), take("a"), send("b"), take("b"), send("a"), take("a")
            elif order == "ba":
                send("b"), send("a"), take("a"), take("b")
            else:
                send("a"), take("a"), send("b"), send("a"), take("b"), take("a")
            ctx.state(enc, kind, what, order)
    ctx.outcome(str(case))


def run_interleave(case, ctx):
    a, b, lo, n = case
    na, nb = len(session(a)), len(session(b))
    for where in itertools.islice(itertools.combinations(range(na + nb), na), lo, lo + n):
        ctx.trace()
        sa, sb = session(a), session(b)
        ia = ib = 0
        order = set(where)
        try:
            for i in range(na + nb):
                if i in order:
                    sa[ia]()
                    ia += 1
                else:
                    sb[ib]()
                    ib += 1
                ctx.step()
                ctx.state(str(a), str(b), ia, ib)
        except Violation as e:
            fail("steps %s of %s interleaved with %s: %s" % (list(where), a, b, e))
    ctx.outcome(str(case))


def run_three(case, ctx):
    specs, lo, n = case
    lists = [session(s) for s in specs]
    total = sum(map(len, lists))

    def orders(left):
        if not any(left):
            yield ()
            return
        for i, x in enumerate(left):
            if x:
                for rest in orders(left[:i] + (x - 1,) + left[i + 1:]):
                    yield (i,) + rest

    for order in itertools.islice(orders(tuple(map(len, lists))), lo, lo + n):
        ctx.trace()
        ls = [iter(session(s)) for s in specs]
        for i in order:
            next(ls[i])()
            ctx.step()
        ctx.state(str(specs), order[:total // 2])
    ctx.outcome(str(case))


# ------------------------------------------------------------------ earlier results stay as they are

def snapshot(o):
    if isinstance(o, (list, tuple)):
        return [snapshot(x) for x in o]
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (bytes, bytearray, memoryview)):
        return bytes(o)
    import attr
    if attr.has(type(o)):
        return (type(o).__name__, {f.name: snapshot(getattr(o, f.name)) for f in attr.fields(type(o))})
    return o


def spoil(o):
    """Change everything mutable in a result."""
    import attr
    if isinstance(o, bytearray):
        o[:] = b"\xaa" * len(o) + b"\xbb"
    elif isinstance(o, list):
        for x in o:
            spoil(x)
        o.append("spoilt")
    elif isinstance(o, dict):
        for x in list(o.values()):
            spoil(x)
        o["spoilt"] = 1
    elif attr.has(type(o)):
        for f in attr.fields(type(o)):
            spoil(getattr(o, f.name))
            try:
                setattr(o, f.name, "spoilt")
            except Exception:
                pass


def record(t, seed, rows=2):
    return bytes(L.sample(t, seed, seed % 2 == 0, rows))


def run_records(case, ctx):
    """Decode a, then b, then spoil b, then decode a again: nothing about a changes."""
    from elgas import parser
    ta, tb = case
    for sa, sb in ((0, 1), (1, 0), (2, 2), (0, 2)):
        ctx.trace()
        da, db = record(ta, sa), record(tb, sb)
        la = bytearray((len(da) + 3).to_bytes(2, "little") + bytes([ta]) + da)
        lb = bytearray((len(db) + 3).to_bytes(2, "little") + bytes([tb]) + db)
        keep = bytes(la)
        a = parser.ScadaParameterParser().parse(bytes(la))
        snap = snapshot(a)
        b = parser.ScadaParameterParser().parse(bytes(lb))
        if snapshot(a) != snap:
            fail("decoding a record of type %d changes an object of type %d decoded earlier" % (tb, ta))
        spoil(b)
        if snapshot(a) != snap:
            fail("changing an object of type %d changes another one of type %d" % (tb, ta))
        c = parser.ScadaParameterParser().parse(bytes(la))
        if snapshot(c) != snap:
            fail("type %d decodes differently after objects of type %d were changed by their user" % (ta, tb))
        m = L.compare(ta, da, c[0])
        if m:
            fail("type %d after %d: %s" % (ta, tb, m))
        buf = bytearray(la)
        d = parser.ScadaParameterParser().parse(buf)
        if bytes(buf) != keep:
            fail("parsing changes the caller's buffer (type %d)" % ta)
        buf[:] = bytes(len(buf))
        if snapshot(d) != snap:
            fail("objects of type %d change when the caller reuses its buffer" % ta)
        one = parser.ScadaParameterParser()
        x = one.parse(bytes(la))
        y = one.parse(bytes(lb + la))
        if snapshot(x) != snap:
            fail("a parser's next list (types %d, %d) changes the list of type %d it returned earlier" % (tb, ta, ta))
        spoil(y)
        y.clear()
        if snapshot(x) != snap or snapshot(one.parse(bytes(la))) != snap:
            fail("a list of types %d, %d changed by its user changes another one of type %d" % (tb, ta, ta))
        ctx.step(8)
        ctx.state(ta, tb, sa, sb)
    ctx.outcome(ta, tb)


def run_twins(case, ctx):
    """Decode a record, then one that is easily taken for it, change that one, decode the first again."""
    from elgas import parser
    t, part, parts = case
    da = record(t, 1)

    def decode(d):
        return parser.ScadaParameterParser().parse((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d)

    for what, db in twins(da, bits=False)[part::parts]:
        if L.expect(t, db) is None:
            continue
        ctx.trace()
        a = decode(da)
        snap = snapshot(a)
        b = decode(db)
        for d, o in ((da, a), (db, b)):
            m = L.compare(t, d, o[0])
            if m:
                fail("type %d, twins (%s): %s" % (t, what, m))
        spoil(b)
        if snapshot(a) != snap or snapshot(decode(da)) != snap:
            fail("type %d: changing one object changes its twin (%s)" % (t, what))
        ctx.step(3)
        ctx.state("twin", t, what)
    ctx.outcome(str(case))


def run_answers(case, ctx):
    """The answers of a long session stay as they were."""
    seq, enc = case
    c = sut.conn(enc)
    kept = []
    buf = bytearray()
    for kind in seq:
        c.send(sut.request(kind))
        payload = (sut.RESP if len(kept) % 2 else sut.RESP_ALT)[kind]
        buf[:] = sut.response_wire(kind, payload, enc)
        c.receive_data(buf)
        r = sut.poll(c)
        buf[:] = b"\x0d" * len(buf)
        if r[0] != "answer":
            fail("%s: no answer: %r" % (seq, r))
        kept.append((kind, payload, r[1]))
        for k, p, x in kept:
            sut.check_answer(k, p, x, "answers of %s looked at later" % (seq,))
        ctx.step()
    ctx.state(str(seq), enc)
    ctx.outcome(str(case))


LISTS = [[], [47], [47, 65], [65, 47, 48], [48, 48]]


def run_downloads(case, ctx):
    """Every downloaded list stays as it was whatever is downloaded next and whatever its user does to the later one."""
    enc, seq = case
    from mc.props.c04 import Script, client
    tr = Script([])
    cl = client(tr, enc)
    cl.connect()
    kept = []
    for k, i in enumerate(seq):
        objs = [(t, record(t, 1 + j)) for j, t in enumerate(LISTS[i])]
        tr.chunks = [sut.response_wire("params", b"\x00\x00" + len(objs).to_bytes(2, "little") + b"\x01" + b"".join(
            (len(d) + 3).to_bytes(2, "little") + bytes([t]) + d for t, d in objs), enc)]
        got = cl.read_parameters()
        ctx.step()
        if len(got) != len(objs) or any(L.compare(t, d, g) for (t, d), g in zip(objs, got)):
            fail("%s: download %d gives other objects than the device has" % (case, k))
        for n, (g, snap) in enumerate(kept):
            if snapshot(g) != snap:
                fail("%s: download %d changes the list of download %d" % (case, k, n))
        kept.append([got, snapshot(got)])
        if k & 1:
            spoil(got)
            got.append(None)
            kept[-1][1] = snapshot(got)
            for n, (g, snap) in enumerate(kept):
                if snapshot(g) != snap:
                    fail("%s: changing the list of download %d changes that of download %d" % (case, k, n))
    ctx.trace()
    ctx.state(enc, seq)
    ctx.outcome(str(case))


# ------------------------------------------------------------------ two threads

def run_shared(case, ctx):
    """Two sessions are handed one and the same buffer object, in every order and cut; its owner overwrites or empties it afterwards."""
    kind, enc, cut, order, after, typ = case
    payload = sut.RESP[kind]
    w = sut.response_wire(kind, payload, enc)
    cs = [sut.conn(enc), sut.conn(enc)]
    for c in cs:
        c.send(sut.request(kind))
    cuts = [w[:cut], w[cut:]]
    for i, part in enumerate(cuts):
        buf = bytearray(part)
        for j in order:
            cs[j].receive_data(buf if typ == "bytearray" else bytes(buf))
        if bytes(buf) != part:
            fail("%s: receiving changes the caller's buffer" % (case,))
        if after == "spoil":
            buf[:] = b"\xaa\x0d" * (len(buf) // 2)
        elif after == "clear":
            buf.clear()
        elif after == "grow":
            buf += b"\x0d\x02\xfe\x0d"
        for j in order if i == 0 else ():
            r = sut.poll(cs[j])
            if r[0] != "need" and cut:
                fail("%s: session %d: polling gives %s %r before its response is complete" % (case, j, r[0], r[1]))
        ctx.step(2)
    for j in order:
        r = sut.poll(cs[j])
        if r[0] != "answer":
            fail("%s: session %d: no answer: %s %r" % (case, j, r[0], r[1]))
        sut.check_answer(kind, payload, r[1], str(case))
        r = sut.poll(cs[j])
        if r[0] != "need":
            fail("%s: session %d: something left: %s %r" % (case, j, r[0], r[1]))
        cs[j].send(sut.request(kind))
        cs[j].receive_data(w)
        sut.check_answer(kind, payload, cs[j].next_event(), str(case))
    ctx.state("shared", kind, enc, cut, order, after, typ)
    ctx.trace()
    ctx.outcome(str(case))


def op_exchange(spec):
    def op():
        for s in session(spec):
            s()
    return op


def op_parse(types, seed):
    def op():
        from elgas import parser
        recs = [(t, record(t, seed + i)) for i, t in enumerate(types)]
        got = parser.ScadaParameterParser().parse(b"".join((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d for t, d in recs))
        if len(got) != len(recs):
            fail("%d of %d objects decoded" % (len(got), len(recs)))
        for (t, d), g in zip(recs, got):
            m = L.compare(t, d, g)
            if m:
                fail(m)
    return op


def op_export(types, seed):
    def op():
        import json
        from elgas import parser
        from elgas.parameters.factory import ParameterSchemaFactory
        recs = [(t, record(t, seed + i)) for i, t in enumerate(types)]
        objs = parser.ScadaParameterParser().parse(b"".join((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d for t, d in recs))
        for (t, d), o in zip(recs, objs):
            s = ParameterSchemaFactory.by_parameter_id(t)()
            back = s.load(json.loads(json.dumps(s.dump(o))))
            if snapshot(back) != snapshot(o):
                fail("object of type %d changes by export and import" % t)
            m = L.compare(t, d, back)
            if m:
                fail(m)
    return op


def op_call(k):
    def op():
        from elgas import application
        p = c20.base(k)
        got = application.CallRequest.from_bytes(bytes(p))
        for name, v in c20.expect(p).items():
            if getattr(got, name) != v:
                fail("call-in field %s is %r" % (name, getattr(got, name)))
    return op


def op_codec(k):
    def op():
        from elgas import utils, frames
        body = bytes((i * k + 0x0D) & 255 for i in range(1, 30)) + b"\x0d\x1b\x8d\x0d"
        if utils.escape_characters(body) != ref.stuff(body) or utils.return_characters(ref.stuff(body)) != body:
            fail("stuffing differs")
        f = frames.Request(service=0x6C, destination_address_1=k, destination_address_2=k, source_address_1=k, source_address_2=k, data=body)
        if f.to_bytes() != ref.frame(ref.REQUEST, 0x6C, body, dst=(k, k), src=(k, k)):
            fail("frame differs")
    return op


def op_repr(k):
    def op():
        from mc.props.c04 import Script, client
        cl = client(Script([]), True)
        s = repr(cl) + str(cl.elgas_connection)
        if sut.PW in s or repr(sut.KEY)[2:-1] in s:
            fail("secret shown")
    return op


OPS = {
    "time": op_exchange(["time", None, 3, "alt"]), "time-enc": op_exchange(["time", 0, 3, ""]), "wtime-enc1": op_exchange(["wtime", 1, 3, "alt"]),
    "wtime": op_exchange(["wtime", None, 2, "twice"]), "arch": op_exchange(["arch", None, 1, "junk"]), "archt-enc": op_exchange(["archt", 1, 4, "deverr"]),
    "values": op_exchange(["values", None, 5, "alt"]), "params-enc": op_exchange(["params", 0, 3, "wrong"]),
    "parse": op_parse([47, 65], 0), "parse2": op_parse([48, 31], 1), "call": op_call(1), "codec": op_codec(7), "codec2": op_codec(29), "repr": op_repr(0),
    "stats": op_parse([80], 2), "export": op_export([65, 30], 0), "export2": op_export([34, 47], 1),
}


# ------------------------------------------------------------------ links of two clients

ENDS = {"tcp0": ("tcp", ("10.0.0.9", 8000)), "tcp1": ("tcp", ("10.0.0.9", 8001)), "tcp2": ("tcp", ("10.0.0.8", 8000)), "ser0": ("serial", "/dev/ttyS0"),
        "ser1": ("serial", "/dev/ttyS1")}
LINKS = [None]          # the world of the case that runs


class Far:
    """A device at the other end of one link."""

    def __init__(self, spec):
        self.end, self.kind, self.ki, self.variant, self.timeout, self.gap = spec
        self.enc, self.key = self.ki is not None, None if self.ki is None else KEYS[self.ki]
        self.pw = "%s%s" % (self.kind[:3], {"tcp0": "007", "tcp1": "118", "tcp2": "229", "ser0": "336", "ser1": "445"}[self.end])
        self.payload = (sut.RESP if self.variant != "alt" else sut.RESP_ALT)[self.kind]
        self.types = [47, 65] if self.variant != "alt" else [48, 31, 47]
        self.page = self.n = 0
        self.name = "client %s" % (spec,)
        self.rx = b""
        self.cl = None

    def make(self):
        from elgas import transport as t
        from elgas.client import ElgasClient
        kind, addr = ENDS[self.end]
        tr = t.BlockingTcpTransport(addr[0], addr[1], timeout=self.timeout) if kind == "tcp" else t.SerialTransport(addr, 9600, timeout=self.timeout)
        k = dict(encryption_key=self.key, encryption_key_id=sut.KEY_ID) if self.enc else {}
        self.cl = ElgasClient(transport=tr, password=self.pw, password_id=810, **k)

    def connect(self):
        self.cl.connect()
        link = self.cl.transport.tcp_socket if ENDS[self.end][0] == "tcp" else self.cl.transport.serial_port
        if link is None or link.target != ENDS[self.end][1]:
            fail("%s: connected to %r" % (self.name, link and link.target))
        if link.on_send is not None:
            fail("%s: uses a link that is in use" % self.name)
        self.rx = b""
        link.on_send = self.sent

    def sent(self, link, data):
        self.rx += data
        while b"\x0d" in self.rx:
            i = self.rx.index(b"\x0d") + 1
            req, self.rx = self.rx[:i], self.rx[i:]
            f, p = sut.decode_request(req, self.enc, self.key)
            if f["service"] != ref.KINDS[self.kind] or self.kind != "time" and not ref.matches(ref.password_field(self.pw), p[:len(self.pw) + 4]):
                fail("%s: the device gets the request %02x %s" % (self.name, f["service"], p.hex()))
            self.n += 1
            payload = self.payload
            if self.variant == "deverr":
                payload = b"\x10"
            elif self.kind == "params":
                k = p[10] + 256 * p[11]
                t = self.types[k]
                d = record(t, k)
                payload = p[10:12] + b"\x01\x00" + bytes([k == len(self.types) - 1]) + (len(d) + 3).to_bytes(2, "little") + bytes([t]) + d
            w = sut.response_wire(self.kind, payload, self.enc, self.key, sut.KEY_ID)
            for k in range(0, len(w), 5):
                link.feed(w[k:k + 5], self.gap * (1 + k // 5))

    def operate(self):
        from elgas import exceptions
        from mc.props.c07 import operate
        n0 = self.n
        try:
            got = operate(self.cl, self.kind)
        except exceptions.ElgasError as e:
            if self.variant != "deverr":
                fail("%s: %r" % (self.name, e))
            expect_error(("error", e), 0x10, self.name)
            return
        if self.variant == "deverr":
            fail("%s: device error not reported" % self.name)
        if self.n == n0:
            fail("%s: its device was never asked" % self.name)
        if self.kind == "params":
            if len(got) != len(self.types) or any(L.compare(t, record(t, k), g) for k, (t, g) in enumerate(zip(self.types, got))):
                fail("%s: other objects than its device has" % self.name)
        elif self.kind == "wtime":
            if got is not None:
                fail("%s: returns %r" % (self.name, got))
        elif self.kind == "time":
            if got != ref.decode_response("time", self.payload)["time"]:
                fail("%s: returns %r" % (self.name, got))
        else:
            sut.check_answer(self.kind, self.payload, got, self.name)

    def disconnect(self):
        self.cl.disconnect()

    def steps(self):
        return [self.make, self.connect, self.operate, self.operate, self.disconnect]


def op_link(spec):
    def op():
        f = Far(spec)
        w = LINKS[0]
        w.calls = 0
        for s in (f.make, f.connect, f.operate, f.disconnect):
            s()
    return op


FARS = [["tcp0", "time", None, "", 10, 0.1], ["tcp1", "time", 0, "alt", 0.4, 0.01], ["tcp2", "wtime", 1, "", 3, 0.05], ["ser0", "arch", None, "", 10, 0.05],
        ["ser1", "params", 0, "", 1, 0.005], ["tcp1", "params", None, "alt", 10, 0.02], ["tcp0", "values", 0, "deverr", 5, 0.3], ["ser0", "archt", 1, "deverr", 2, 0.2]]
OPS_LINK = {"link-%d" % i: op_link(f) for i, f in enumerate(FARS)}


def op_wire(end, timeout, gap, lines):
    """A transport alone: everything sent is on its link, every line is received as it is."""
    def op():
        from elgas import transport as t
        kind, addr = ENDS[end]
        tr = t.BlockingTcpTransport(addr[0], addr[1], timeout=timeout) if kind == "tcp" else t.SerialTransport(addr, 9600, timeout=timeout)
        tr.connect()
        link = tr.tcp_socket if kind == "tcp" else tr.serial_port
        for i, line in enumerate(lines):
            tr.send(b"to %d %s" % (i, line))
            if link.sent[i:] and b"".join(link.sent)[-len(line):] != line:
                fail("%s: the link carries %r" % (end, link.sent))
            for k in range(0, len(line), 4):
                link.feed(line[k:k + 4], gap * (1 + k // 4))
            got = tr.recv()
            if got != line:
                fail("%s: the line %r is received as %r" % (end, line, got))
        tr.disconnect()
    return op


OPS_WIRE = {"wire-%s" % end: op_wire(end, timeout, gap, lines) for end, timeout, gap, lines in (
    ("tcp0", 10, 0.9, [b"first line of 0\x0d", b"0\x0d", b"\x0d"]), ("tcp1", 0.5, 0.01, [b"1st\x0d", b"the second line of one\x0d"]),
    ("ser0", 10, 0.9, [b"\x0d", b"serial line of zero\x0d"]), ("ser1", 0.5, 0.001, [b"short 1\x0d"]))}


def run_links(case, ctx):
    """Two clients on two links in two threads, one preempted at every source line of the library."""
    from mc.world import World, installed
    na, nb, part, parts, every = case
    ops = dict(OPS, **OPS_LINK, **OPS_WIRE)
    a, b = ops[na], ops[nb]
    w = LINKS[0] = World()
    w.where = str(case)
    with installed(w):
        a(), b()
        lines = lines_of(a)
        for i in points(lines, every)[part::parts]:
            ctx.trace()
            w.links.clear()
            try:
                hit = pair(a, b, i, None)
            except Violation as e:
                fail("%s stopped at %s:%d (line %d of its run) while %s runs: %s" % (na, lines[i][0].split("/")[-1], lines[i][1], i, nb, e))
            if w.open_links():
                fail("%s stopped at line %d of its run while %s runs: %d links are left open" % (na, i, nb, len(w.open_links())))
            ctx.step(2)
            if hit:
                ctx.state(na, lines[i], nb)
    ctx.outcome(na, nb, part)


def run_clients(case, ctx):
    """Two clients with links of their own: all interleavings of their operations."""
    from mc.world import World, installed
    a, b = case
    na = nb = 5
    w = LINKS[0] = World()
    with installed(w):
        for where in itertools.combinations(range(na + nb), na):
            ctx.trace()
            w.calls = 0
            w.where = "%s %s" % (case, where)
            w.links.clear()
            la, lb = iter(Far(a).steps()), iter(Far(b).steps())
            for i in range(na + nb):
                try:
                    next(la if i in where else lb)()
                except Violation as e:
                    fail("steps %s of %s interleaved with %s: %s" % (list(where), a, b, e))
                ctx.step()
            if w.open_links():
                fail("%s %s: %d links are left open" % (case, where, len(w.open_links())))
            ctx.state(str(case), where)
    ctx.outcome(str(case))


class Stop(Exception):
    pass


def lines_of(op):
    """Source lines of elgas executed by op, in order."""
    out = []

    def local(frame, event, arg):
        if event == "line":
            out.append((frame.f_code.co_filename[-30:], frame.f_lineno))
        return local

    def glob(frame, event, arg):
        return local if "/elgas/" in frame.f_code.co_filename and "/mc/" not in frame.f_code.co_filename else None

    sys.settrace(glob)
    try:
        op()
    finally:
        sys.settrace(None)
    return out


def traced(op, at, hook, box):
    """Run op and call hook once, before its at-th source line."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            if n[0] == at:
                n[0] += 1
                hook()
            else:
                n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if "/elgas/" in frame.f_code.co_filename and "/mc/" not in frame.f_code.co_filename else None

    sys.settrace(glob)
    try:
        op()
    except BaseException as e:
        box.append(e)
    finally:
        sys.settrace(None)


BLOCKED = 0.2


def pair(a, b, at, back):
    """Thread A runs a and is stopped before line `at`; B runs b (stopped before its line `back` if not None until A is done)."""
    box_a, box_b = [], []
    b_idle, a_done = threading.Event(), threading.Event()
    tb = []

    def b_main():
        def pause():
            b_idle.set()
            a_done.wait(5)
        if back is None:
            try:
                b()
            except BaseException as e:
                box_b.append(e)
        else:
            traced(b, back, pause, box_b)
        b_idle.set()

    def switch():
        t = threading.Thread(target=b_main, daemon=True)
        tb.append(t)
        t.start()
        b_idle.wait(BLOCKED if back is None else 5)

    ta = threading.Thread(target=traced, args=(a, at, switch, box_a), daemon=True)
    ta.start()
    ta.join(30)
    a_done.set()
    for t in tb:
        t.join(30)
    if ta.is_alive() or any(t.is_alive() for t in tb):
        fail("two threads block each other")
    for box, who in ((box_a, "the stopped thread"), (box_b, "the other thread")):
        if box:
            raise Violation("%s: %s: %s" % (who, type(box[0]).__name__, box[0]))
    return bool(tb)


def points(lines, every):
    """Preemption points: all of them, or at most `every` visits of each source line (the first ones and the last)."""
    if not every:
        return list(range(len(lines)))
    seen, out, last = {}, [], {}
    for i, x in enumerate(lines):
        seen[x] = seen.get(x, 0) + 1
        if seen[x] <= every:
            out.append(i)
        else:
            last[x] = i
    return sorted(out + list(last.values()))


def run_threads(case, ctx):
    na, nb, part, parts, every = case
    a, b = OPS[na], OPS[nb]
    a(), b()                                      # whatever is set up on first use
    lines = lines_of(a)
    for i in points(lines, every)[part::parts]:
        ctx.trace()
        try:
            hit = pair(a, b, i, None)
        except Violation as e:
            fail("%s stopped at %s:%d (line %d of its run) while %s runs: %s" % (na, lines[i][0].split("/")[-1], lines[i][1], i, nb, e))
        ctx.step(2)
        if hit:
            ctx.state(na, lines[i], nb)
    ctx.outcome(na, nb, part)


def run_threads2(case, ctx):
    na, nb, part, parts, every = case
    a, b = OPS[na], OPS[nb]
    a(), b()
    la, lb = lines_of(a), lines_of(b)
    for i in points(la, every)[part::parts]:
        for j in points(lb, every):
            ctx.trace()
            try:
                pair(a, b, i, j)
            except Violation as e:
                fail("%s stopped at %s, then %s stopped at %s: %s" % (na, la[i], nb, lb[j], e))
            ctx.step(3)
            ctx.state(na, la[i], nb, lb[j])
    ctx.outcome(na, nb, part)


def run_first(case, ctx):
    """First use in a fresh process, with the preemption inside (module level caches that fill on first use)."""
    import os
    import pickle
    na, nb, at = case
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import importlib
            for m in [m for m in sys.modules if m.split(".")[0] == "elgas"]:
                del sys.modules[m]
            import elgas.connection
            import elgas.parser
            msg = ""
            try:
                pair(OPS[na], OPS[nb], at, None)
            except Violation as e:
                msg = str(e)
            os.write(w, pickle.dumps(msg))
        except BaseException as e:
            os.write(w, pickle.dumps("%s: %s" % (type(e).__name__, e)))
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    os.waitpid(pid, 0)
    msg = pickle.loads(data)
    ctx.step(2)
    ctx.state("first", na, nb, at)
    ctx.outcome(na, nb, at)
    if msg:
        fail("first use: %s stopped at its line %d while %s runs: %s" % (na, at, nb, msg))


def families(tier):
    q = tier == "quick"
    kinds = list(ref.KINDS)

    def specs():
        out = []
        for i, kind in enumerate(kinds):
            out.append([kind, None, 1 + i % 7, ["", "alt", "junk", "twice", "wrong", "deverr"][i]])
            out.append([kind, i % 2, 3, ["alt", "", "deverr", "junk", "", "wrong"][i]])
        out += [["time", 0, 3, ""], ["time", 1, 3, "alt"], ["time", 0, 4, "alt"], ["time", None, 4, ""]]
        return out

    def interleave():
        ss = specs()
        for i, a in enumerate(ss):
            for j, b in enumerate(ss):
                if q and (i + 2 * j) % 5 and i < 12 and j < 12:
                    continue
                n = 1
                na, nb = len(session(a)), len(session(b))
                for k in range(min(na, nb)):
                    n = n * (na + nb - k) // (k + 1)
                for lo in range(0, n, 300):
                    yield [a, b, lo, 300]

    def three():
        trip = [[["time", 0, 3, "deverr"], ["wtime", 1, 3, "deverr"], ["arch", None, 3, "deverr"]]]
        if not q:
            trip += [[["time", 0, 3, "deverr"], ["time", 1, 3, "deverr"], ["time", 0, 4, "deverr"]],
                     [["params", 0, 3, "deverr"], ["params", None, 3, "deverr"], ["values", 1, 3, "deverr"]]]
        for t in trip:
            for lo in range(0, 20000 if q else 756756, 2000):
                yield [t, lo, 2000]

    def records():
        ts = [t for t in sorted(L.TYPES) if t not in L.UNDECODABLE]
        for a in ts:
            for b in ts:
                yield [a, b]

    def twin():
        for t in sorted(L.TYPES):
            if t not in L.UNDECODABLE:
                for part in range(2):
                    yield [t, part, 2]

    def answers():
        for enc in (False, True):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                for seq in itertools.product(kinds, repeat=n):
                    yield [list(seq), enc]

    def threads():
        parts = 16
        names = list(OPS)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if q and (i * 3 + j) % 4 and a != b and a[:4] != b[:4]:
                    continue
                for part in range(parts):
                    yield [a, b, part, parts, 2 if q else 0]

    def threads2():
        small = ["wtime", "wtime-enc1", "codec", "codec2", "parse", "call", "repr"]
        for a in small[:4] if q else small:
            for b in small[:4] if q else small:
                if q and (a, b) not in (("codec", "codec2"), ("parse", "codec")):
                    continue
                for part in range(64):
                    yield [a, b, part, 64, 1]

    def first():
        for a in ("time-enc", "codec", "parse", "call") if q else OPS:
            for b in ("wtime-enc1", "codec2", "parse2") if q else OPS:
                for at in range(0, 400, 40) if q else range(0, 600, 7):
                    yield [a, b, at]

    def shared():
        for enc in (False, True):
            for kind in ("time", "arch", "wtime") if q else kinds:
                n = len(sut.response_wire(kind, sut.RESP[kind], enc))
                for cut in range(n):
                    for order in ((0, 1), (1, 0)):
                        for after in ("keep", "spoil", "clear", "grow"):
                            for typ in ("bytearray", "bytes"):
                                yield [kind, enc, cut, order, after, typ]

    def downloads():
        for enc in (False, True):
            for n in (2, 3):
                for seq in itertools.product(range(5), repeat=n):
                    yield [enc, list(seq)]

    def links():
        names = list(OPS_LINK)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if a == b or FARS[i][0] == FARS[j][0] and FARS[i][0].startswith("ser"):
                    continue
                if q and (i + j) % 3:
                    continue
                for part in range(8):
                    yield [a, b, part, 8, 2 if q else 0]
        for a in OPS_WIRE:
            for b in OPS_WIRE:
                for part in range(4):
                    # a patient transport next to an impatient one (the other way round its time would really run out)
                    if a[-1] == "0" and (a != b or a.startswith("wire-tcp")) and (a[-1] != b[-1] or a == b):
                        yield [a, b, part, 4, 6 if q else 0]

    def clients():
        for a in FARS:
            for b in FARS:
                if a[0] != b[0] or a[0].startswith("tcp"):
                    yield [a, b]

    def near():
        for enc in (False, True):
            for kind in ("values", "time") if q else ref.KINDS:
                for part in range(8):
                    yield [enc, kind, part, 8]

    return [
        Family("alike", near, run_alike, "two sessions whose configurations differ in one small thing"),
        Family("clients", clients, run_clients, "two clients with links of their own: all interleavings of connect, operation, operation, disconnect"),
        Family("links", links, run_links, "two clients on two links in two threads, one preemption at every source line" + (" (first, second and last visit)" if q else "")),
        Family("downloads", downloads, run_downloads, "two or three downloads on one client, the lists kept and changed by their user"),
        Family("shared", shared, run_shared, "one buffer object given to two sessions and overwritten afterwards x every cut"),
        Family("interleave", interleave, run_interleave, "all interleavings of the steps of two sessions"),
        Family("three", three, run_three, "interleavings of the steps of three sessions"),
        Family("records", records, run_records, "every pair of parameter types: decode, decode, change, decode"),
        Family("twins", twin, run_twins, "records that agree in length and in a digest or sum, in turns"),
        Family("answers", answers, run_answers, "all sequences of up to 3 (4) exchanges with all answers kept"),
        Family("threads", threads, run_threads, "one preemption at every source line" + (" (first, second and last visit)" if q else "")),
        Family("threads2", threads2, run_threads2, "two preemptions"),
        Family("first", first, run_first, "one preemption during the first use in a process"),
    ]
