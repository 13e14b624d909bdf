"""C19 passwords and keys never show up in representations of a client."""
import base64
import contextlib
import datetime as dt
import io
import itertools
import logging
import pprint
import re
import traceback

from mc import core, ref, sut
from mc.core import Family, fail
from mc.props.c07 import operate
from mc.props.c18 import DEVIATIONS, Device, replies
from mc.world import World, installed, transport

PROP, LEVEL = "C19", "model_checking"
RULE = ("a case is a password, a key (or none), a sequence of client operations and a deviation of link or device; at every interaction with the "
        "environment (connect, every read and write, disconnect) and after every operation all textual representations of client, connection and "
        "requests are searched for the secrets in many spellings, and so is every log record and everything printed; a state is (stage, "
        "encryption, operation, deviation, session state)")
ASSUMPTIONS = ["without a key the request payload contains the password by design of the protocol and is written to the debug log; this level is not part of the claim",
               "a secret counts as revealed when four of its characters/bytes in a row (in log records five of a password, seven of a key) are found in plain, "
               "escaped, hexadecimal, decimal list or base64 spelling"]

PASSWORDS = ["Zq7#Wx", "a'b\"\\~", "\u00e9\u00fc\u00f1\u00df\u00a7\u00b5", "\tQ\n\x07%s", "{0}%rJ", "000000", "      ", "aB3dE9"]
KEYS = [bytes([0x4B, 0x9D, 0xE2, 0x11, 0xFC, 0x7A, 0x33, 0xC8, 0x05, 0x66, 0xBE, 0xF1, 0x29, 0x94, 0xD7, 0x58]),
        b"S3cr3tK3y-\"'\\%s!", bytes(range(0xF0, 0x100)),
        bytes(16), b"\xff" * 16, b" " * 16, b"Q1w2E3r4T5y6U7i8"]


WEAK = set("'\"\\ ,:;=[](){}<>")       # what text is full of anyway


def spellings(secret, size):
    """Every text in which `size` characters in a row of the secret would be readable."""
    out = set()
    raw = secret.encode("latin-1") if isinstance(secret, str) else bytes(secret)
    txt = secret if isinstance(secret, str) else raw.decode("latin-1")
    n = len(raw)
    if len(set(raw)) == 1:      # part of it may stand anywhere by chance
        if isinstance(secret, str):
            return {repr(txt), '"' + txt + '"', "=" + txt, txt + "!\x03", txt + "!\\x03", (raw + b"!").hex()}
        return {repr(raw), repr(raw)[1:], '"' + repr(raw)[2:-1] + '"', "=" + repr(raw)[2:-1], "'" + raw.hex(), "=" + raw.hex()}
    for i, k in [(i, size) for i in range(n - size + 1)] + [(0, n)]:
        r, t = raw[i:i + k], txt[i:i + k]
        out |= {r.hex(), r.hex().upper(), r.hex(" "), r.hex(":"), str(list(r))[1:-1]}
        if k == n or sum(c not in WEAK for c in t) >= min(4, size):
            out |= {t, repr(t)[1:-1], repr(r)[2:-1], repr(bytearray(r))[12:-2], t.encode("unicode_escape").decode("ascii"),
                    t.encode("utf-8").decode("latin-1"), t[::-1]}
    out |= {base64.b64encode(raw).decode()[:-4], raw[::-1].hex(), str(int.from_bytes(raw, "big")), str(int.from_bytes(raw, "little"))}
    return {s for s in out if len(s) >= 4}


ADDRESS = re.compile(r"\bat 0x[0-9a-fA-F]+")        # differs from run to run


class Watch:
    def __init__(self, pw, key, enc, ctx, name):
        # log records hold ciphertext, in which short strings turn up by chance
        self.secrets, self.long = ({**{s: "password" for s in spellings(pw, n)}, **({s: "key" for s in spellings(key, m)} if enc else {})}
                                   for n, m in ((4, 4), (5, 7)))
        self.enc, self.ctx, self.name = enc, ctx, name
        self.objects, self.stage = [], ""

    def text(self, s, what, secrets=None):
        s = ADDRESS.sub("at 0x", s)
        for x, label in (secrets or self.secrets).items():
            if x in s:
                fail("%s: %s shows the %s: ...%s..." % (self.name, what, label, s[max(0, s.index(x) - 40):s.index(x) + 60]))

    def error(self, e, what="the raised error"):
        """Message and traceback of an error and of everything behind it."""
        self.text("".join(traceback.format_exception(e)), what)
        while e is not None:
            self.text(str(e), what)
            if not isinstance(e, UnicodeError):     # names what it cannot encode
                self.text(repr(e), what)
            e = e.__cause__ or e.__context__

    def look(self, stage):
        self.stage = stage
        self.ctx.step()
        for what, o in list(self.objects):
            for form, f in (("repr", repr), ("str", str), ("format", lambda o: format(o)), ("%-formatting", lambda o: "%s %r" % (o, o)),
                            ("f-string", lambda o: f"{o} {o!r} {o!s} {o!a}"), ("list", lambda o: repr([o]) + str((o,))), ("dict", lambda o: str({"x": o})),
                            ("pprint", pprint.pformat)):
                self.text(f(o), "%s of %s at %s" % (form, what, stage))

    def record(self, logger, level, event):
        lv = {"debug": 10, "info": 20, "warning": 30, "warn": 30, "error": 40, "critical": 50, "exception": 40}.get(level, 30)
        if not self.enc and lv <= 10:
            return
        import structlog
        d = dict(event)
        for k, v in d.items():
            for s in (str(v), repr(v), "%s" % (v,), repr([v])):
                if isinstance(v, (str, bytes)) or hasattr(v, "__iter__") or True:
                    self.text("%s=%s" % (k, s), "log record %r (%s)" % (d.get("event"), k), self.long)
        for r in (structlog.processors.KeyValueRenderer(), structlog.processors.JSONRenderer(), structlog.dev.ConsoleRenderer(colors=False)):
            self.text(str(r(logger, level, dict(d))), "rendered log record %r" % (d.get("event"),), self.long)
        self.ctx.step()


@contextlib.contextmanager
def listening(watch):
    import structlog

    def catch(logger, name, event):
        watch.record(logger, name, event)
        raise structlog.DropEvent

    class Null:
        def __getattr__(self, name):
            return lambda *a, **k: None

    class H(logging.Handler):
        def emit(self, r):
            watch.record(None, r.levelname.lower(), {"event": r.getMessage()})

    structlog.configure(processors=[catch], wrapper_class=structlog.make_filtering_bound_logger(0), logger_factory=lambda *a: Null(),
                        cache_logger_on_first_use=False)
    h, root = H(), logging.getLogger()
    old = root.level
    root.addHandler(h)
    root.setLevel(1)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield
    finally:
        root.removeHandler(h)
        root.setLevel(old)
        core.silence_logs()
    if watch.enc:
        watch.text(out.getvalue(), "printed output", watch.long)


@contextlib.contextmanager
def requests_seen(watch):
    """Representations of the request objects, as they are handed to the connection."""
    from elgas import connection
    orig = connection.ElgasConnection.send

    def send(self, *a, **k):
        for e in a:
            watch.objects.append(("request", e))
        del watch.objects[2:-3]
        return orig(self, *a, **k)

    connection.ElgasConnection.send = send
    try:
        yield
    finally:
        connection.ElgasConnection.send = orig


def run(case, ctx):
    tk, pi, ki, ops, devs = case
    from elgas import exceptions
    from elgas.client import ElgasClient
    pw, enc = PASSWORDS[pi], ki is not None
    key = KEYS[ki] if enc else None
    watch = Watch(pw, key, enc, ctx, "%s password %r key %s %s deviations %s" % (tk, pw, key and key.hex(), ops, devs))
    w = World(reads_limit=30000)
    w.where = str(case)
    # the simulated device knows the secrets, too
    saved = sut.KEY, sut.KEY_ID, sut.PW
    sut.KEY, sut.PW = key or saved[0], pw
    try:
        with installed(w), requests_seen(watch), listening(watch):
            dev = Device(w, enc, {int(k): v for k, v in devs}, ctx)
            answer = dev.sent

            def sent(link, data):
                watch.look("a write")
                answer(link, data)

            dev.sent = sent
            kw = dict(encryption_key=key, encryption_key_id=sut.KEY_ID) if enc else {}
            cl = ElgasClient(transport=transport(tk, 10.0), password=pw, password_id=810, **kw)
            watch.objects += [("client", cl), ("connection", cl.elgas_connection)]
            watch.look("the start")
            take = None

            def opened(link):
                dev.opened(link)
                inner = link.take

                def reading(n, timeout):
                    watch.reads = getattr(watch, "reads", 0) + 1
                    if watch.reads % 16 == 1:
                        watch.look("a read")
                    return inner(n, timeout)

                link.take = reading
            w.on_open = opened
            cl.connect()
            watch.look("connected")
            for kind in ops:
                link = w.open_links()[-1] if w.open_links() else None
                if link:
                    dev.arm(link)
                r = "ok"
                try:
                    got = operate(cl, kind)
                    watch.objects.append(("answer", got))
                except exceptions.ElgasError as e:
                    r = type(e).__name__
                    watch.error(e)
                watch.look("the end of an operation")
                ctx.state(tk, pi, ki, kind, str(devs), r)
            try:
                cl.disconnect()
            except exceptions.CommunicationError:
                pass
            watch.look("disconnected")
    finally:
        sut.KEY, sut.KEY_ID, sut.PW = saved
    ctx.outcome(str(case))


def run_nested(case, ctx):
    """Representations of structures which contain clients and connections, from inside other representations."""
    pi, ki, depth = case
    from elgas.client import ElgasClient
    import attr
    pw, enc = PASSWORDS[pi], ki is not None
    key = KEYS[ki] if enc else None
    watch = Watch(pw, key, enc, ctx, "nested %s" % (case,))
    kw = dict(encryption_key=key, encryption_key_id=3) if enc else {}
    from mc.props.c04 import Script
    for make in (str, lambda s: type("S", (str,), {})(s)):
        cl = ElgasClient(transport=Script([]), password=make(pw), password_id=810, **kw)

        @attr.s(auto_attribs=True)
        class Holder:
            client: object
            more: list

        o = cl
        for _ in range(depth):
            o = Holder(o, [cl.elgas_connection, {"c": cl}])
        watch.objects = [("holder of client", o), ("connection", cl.elgas_connection), ("cipher context", getattr(cl.elgas_connection, "cipher_context", None)),
                         ("requests", [sut.request(k, pw=cl.password) for k in ("values", "wtime", "params")])]
        watch.look("nested")
        ctx.state(pi, ki, depth)
    # a client built with no key, an empty key or only one half of the pair
    for kw in (dict(), dict(encryption_key=None), dict(encryption_key=key), dict(encryption_key_id=3), dict(encryption_key=b""),
               *(dict(encryption_key=(key or b"Zx9!" * 4)[:n] + b"tAiL8-" * m, encryption_key_id=3) for n in (4, 15, 16) for m in (0, 1, 3) if key is None or len(set(key)) > 1)):
        try:
            cl = ElgasClient(transport=Script([]), password=pw, password_id=849, **kw)
        except Exception as e:
            if not kw.get("encryption_key"):
                raise
            watch.error(e, "the refusal of a key without key id")
            continue
        watch.objects = [("client", cl), ("connection", cl.elgas_connection)]
        watch.look("built with %s" % sorted(kw))
    ctx.outcome(str(case))


def run_echo(case, ctx):
    """The request itself comes back from the link (cut anywhere), or sealed content arrives; looked at after every call."""
    pi, ki, kind = case
    from elgas import exceptions
    from elgas.client import ElgasClient
    from mc.props.c04 import Script
    pw, enc = PASSWORDS[pi], ki is not None
    key = KEYS[ki] if enc else None
    kw = dict(encryption_key=key, encryption_key_id=3) if enc else {}
    watch = Watch(pw, key, enc, ctx, "echo of a %s request, password %r key %s" % (kind, pw, key and key.hex()))
    w = None
    n = 0
    while w is None or n <= len(w):
        ctx.trace()
        cl = ElgasClient(transport=Script([]), password=pw, password_id=810, **kw)
        c = cl.elgas_connection
        with listening(watch):
            req = sut.request(kind, pw=cl.password)
            watch.objects = [("client", cl), ("connection", c), ("request", req)]
            w = bytes(c.send(req))
            watch.look("after sending")
            for part in (w[:n], w[n:], w, sut.response_wire(kind, sut.RESP[kind], enc, key, 3)):
                c.receive_data(part)
                watch.look("after receiving %d of %d bytes" % (n, len(w)))
                try:
                    r = c.next_event()
                except exceptions.ElgasError as e:
                    watch.error(e)
                watch.look("after polling")
            ctx.state(pi, ki, kind, n)
        n += 1
    ctx.outcome(str(case))


UNUSABLE = ["Zq7#", "Zq7#W", "Zq7#WxL", "Zq7#WxLong9 and longer", "Zq7#W\u20ac", "\u20acZq7#W", "\u4e00\u4e8c\u4e09\u56db\u4e94\u516d", "Zq7#\ud800W"]
BADARGS = [None, ("wtime", dict(time=dt.datetime(1999, 1, 1))), ("wtime", dict(time=None)), ("params", dict(object_count=65536)), ("params", dict(object_count=-1)),
           ("params", dict(buffer_length="1024")), ("arch", dict(oldest=1 << 32)), ("arch", dict(amount=-1)), ("arch", dict(archive=99)), ("archt", dict(amount=1 << 16)),
           ("archt", dict(time=dt.datetime(2256, 1, 1))), ("archt", dict(time="yesterday"))]


def run_unusable(case, ctx):
    """Passwords, keys and arguments nothing can be sent with: what is said about that."""
    pw, kn, bad = case
    from elgas.client import ElgasClient
    from mc.props.c04 import Script
    pw = UNUSABLE[pw] if pw is not None else PASSWORDS[0]
    key = (KEYS[0] * 3)[:kn] if kn else None
    kw = dict(encryption_key=key, encryption_key_id=3) if key else {}
    tag = "unusable: password %r, key %s, request %s" % (pw, key and key.hex(), BADARGS[bad])
    shown = "".join(c for c in pw if ord(c) < 256)
    watch = Watch(shown if len(shown) >= 4 else "Zq7#Wx", key or KEYS[0], bool(key), ctx, tag)
    if len(shown) < 4:
        watch.secrets.update({x: "password" for x in (pw, repr(pw)[1:-1], ascii(pw)[1:-1])})
    with listening(watch):
        try:
            cl = ElgasClient(transport=Script([]), password=pw, password_id=810, **kw)
        except Exception as e:
            watch.error(e, "the refusal of the configuration")
            ctx.outcome("refused", str(case))
            return
        watch.objects = [("client", cl), ("connection", cl.elgas_connection)]
        for kind in ref.KINDS if bad == 0 else (BADARGS[bad][0],):
            ctx.trace()
            try:
                req = sut.request(kind, pw=cl.password, **(BADARGS[bad][1] if bad else {}))
                watch.objects.append(("request", req))
                cl.elgas_connection.send(req)
            except Exception as e:
                watch.error(e)
            watch.look("after sending a %s request" % kind)
            try:
                if not bad:
                    operate(cl, kind)
            except Exception as e:
                watch.error(e)
            watch.look("after %s" % kind)
            ctx.state(pw, kn, bad, kind)
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def echoes():
        for pi in range(len(PASSWORDS)):
            for ki in [None] + list(range(len(KEYS))):
                if q and pi and ki:
                    continue
                for kind in ref.KINDS:
                    yield [pi, ki, kind]

    kinds = list(ref.KINDS)

    def ops():
        for pi in range(len(PASSWORDS)):
            for ki in [None] + list(range(len(KEYS))):
                for kind in kinds:
                    for d in [None] + (DEVIATIONS if pi == 0 and ki in (None, 0) or not q else ["deverr01", "damaged+", "silence", "odd", "wrongkind", "senderr"]):
                        for n in range(replies(kind) if d and not q else 1):
                            yield ["tcp", pi, ki, [kind], [[n, d]] if d else []]

    def pairs():
        for tk in ("tcp", "serial"):
            for ki in (None, 0):
                for a, b in itertools.product(kinds, repeat=2):
                    for d in (None, "deverr80", "eof", "damaged") if q else [None] + DEVIATIONS:
                        yield [tk, 0, ki, [a, b], [[0, d]] if d else []]

    def unusable():
        for pw in [None] + list(range(len(UNUSABLE))):
            for kn in (0, 16, 5, 15, 17, 24, 32, 40) if q else [0] + list(range(4, 45)):
                for bad in range(len(BADARGS)):
                    yield [pw, kn, bad]

    def nested():
        for pi in range(len(PASSWORDS)):
            for ki in [None] + list(range(len(KEYS))):
                for depth in range(3):
                    yield [pi, ki, depth]

    return [
        Family("echo", echoes, run_echo, "the request comes back from the link, cut at every byte"),
        Family("unusable", unusable, run_unusable, "passwords, keys and arguments nothing can be sent with"),
        Family("nested", nested, run_nested, "structures holding clients, requests with secret passwords, half-configured clients"),
        Family("ops", ops, run, "every operation x password x key x deviation"),
        Family("pairs", pairs, run, "two operations in a row"),
    ]
