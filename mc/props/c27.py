"""C27 encoding and decoding are repeatable and leave what they are given alone."""
import copy
import datetime as dt
import itertools
import json
import os
import pickle
import random

import attr

from mc import layouts as L
from mc import ref, sut
from mc.core import Family, fail
from mc.props import c20
from mc.props.c21 import record, snapshot, spoil
from mc.twins import twins

PROP, LEVEL = "C27", "model_checking"
RULE = ("a case is a sequence of encoding and decoding calls over an alphabet of every codec, with equal or with the very same arguments, the "
        "results being changed by their user in between or not; every result is compared with the one of a fresh process, every argument and every "
        "earlier result with a copy; a state is (call, calls before, mode)")
ASSUMPTIONS = ["filler bytes (password filler, padding) are free and not compared"]
KEY2 = sut.KEY[:8] + bytes(range(0x60, 0x68))     # shares its beginning and the key ids with the first one
KEY3 = bytes(range(0x60, 0x68)) + sut.KEY[8:]     # ... its end
T1, T2 = dt.datetime(2023, 11, 5, 17, 42, 9), dt.datetime(2024, 2, 29, 23, 59, 58)
T3, T4 = T1.replace(microsecond=999999), T2.replace(microsecond=1, fold=1, tzinfo=dt.timezone(dt.timedelta(hours=5)))


def body(v):
    return bytes((i * (5 + v) + 0x0D * v) & 255 for i in range(24)) + (b"\x0d\x1b\x8d" if v else b"\x1b\x0e\x0d")


def refill(o):
    """Change the contents of the containers in a result only, no attribute."""
    if isinstance(o, (bytearray, list, dict)):
        spoil(o)
    elif isinstance(o, tuple):
        for x in o:
            refill(x)
    elif attr.has(type(o)):
        for f in attr.fields(type(o)):
            refill(getattr(o, f.name))


def mutable(o):
    return isinstance(o, (bytearray, list, dict)) or isinstance(o, tuple) and any(map(mutable, o)) or \
        attr.has(type(o)) and any(mutable(getattr(o, f.name)) for f in attr.fields(type(o)))


OWN = (30, 47, 48, 65)


class Op:
    """make(v): the arguments of variant v; call(*args): the result in a comparable form and what the user holds."""

    def __init__(self, name, make, call):
        self.name, self.make, self.call = name, make, call


def ops():
    from elgas import application as a, frames, parser, security, utils
    from elgas.parameters.enumerations import ParameterObjectType
    from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory
    from elgas.connection import ResponsePduFactory
    out = []

    def op(name, make, call):
        out.append(Op(name, make, call))

    def same(f):
        def call(*x):
            r = f(*x)
            return snapshot(r), r
        return call

    op("stuff", lambda v: [bytearray(body(v) + b"\x0d") if v else body(v) + b"\x0d"], same(utils.escape_characters))
    op("unstuff", lambda v: [ref.stuff(body(v) + b"\x0d") if v else bytearray(ref.stuff(body(v) + b"\x0d"))], same(utils.return_characters))
    op("time to bytes", lambda v: [T2 if v else T1], same(utils.datetime_to_bytes))
    op("time with parts to bytes", lambda v: [T4 if v else T3], same(utils.datetime_to_bytes))
    op("time from bytes", lambda v: [ref.time_bytes(T2, True) if v else bytearray(ref.time_bytes(T1, False, True))], same(utils.bytes_to_datetime))
    for cls, t in (("Request", 0x84), ("EncryptedRequest", 0x85), ("Response", 0x86), ("EncryptedResponse", 0x87)):
        K = getattr(frames, cls)

        def make(v, K=K):
            return [K(service=0x6C, destination_address_1=1 + v, destination_address_2=2, source_address_1=3, source_address_2=4 + v, data=body(v))]

        def raw(v, t=t):
            b = ref.frame(t, 0x6C, body(v), dst=(1 + v, 2), src=(3, 4 + v))
            return [bytearray(b) if v else b]
        op("write " + cls, make, same(lambda f: f.to_bytes()))
        op("read " + cls, raw, same(K.from_bytes))
        if "Response" in cls:
            op("read any " + cls, raw, same(frames.ResponseFactory.from_bytes))

    def masked(r):
        b = bytes(r.to_bytes())
        return b[:8] + b"??" + b[10:] if type(r).__name__ != "ReadTimeRequest" else b, b
    for kind in ref.KINDS:
        def make(v, kind=kind):
            over = {}
            if v:
                over = {"wtime": dict(time=T2), "params": dict(object_count=513, buffer_length=1024), "arch": dict(amount=6), "archt": dict(time=T2)}.get(kind, {})
            return [sut.request(kind, pw="Secr%d!" % v, **over)]
        op("encode " + kind, make, masked)
        if kind in ("wtime", "archt"):
            op("encode with parts " + kind, lambda v, kind=kind: [sut.request(kind, time=T4 if v else T3)], masked)

        def payload(v, kind=kind):
            p = (sut.RESP if v else sut.RESP_ALT)[kind]
            return [bytes(p) if v else bytearray(p)]

        def decode(p, kind=kind):
            r = ResponsePduFactory.from_response(frames.Response(service=ref.KINDS[kind], destination_address_1=0, destination_address_2=0, source_address_1=0,
                                                                 source_address_2=0, data=p))
            return snapshot(r), r
        op("decode " + kind, payload, decode)
    op("call-in", lambda v: [bytes(c20.base(1)) if v else bytearray(c20.base(2))], same(a.CallRequest.from_bytes))
    for n, key in (("one", sut.KEY), ("two", KEY2), ("three", KEY3)):
        def ctx_(v, key=key):
            return [security.CipherContext(security.EncryptionKeyId(3 + v), key), body(v) if v else bytearray(body(v))]

        def enc(c, d, key=key):
            r = bytes(c.encrypt(d))
            return ref.open_sealed(r, key, int(c.key_id)), r

        def sealed(v, key=key):
            s = ref.seal(body(v), key, 3 + v)
            return [security.CipherContext(security.EncryptionKeyId(3 + v), key), s if v else bytearray(s)]
        op("encrypt " + n, ctx_, enc)
        op("decrypt " + n, sealed, same(lambda c, d: c.decrypt(d)))

    def refused(f):
        def call(*x):
            try:
                r = f(*x)
            except Exception as e:
                return ("refused", type(e).__name__), None
            return snapshot(r), r
        return call

    def rec(t, v):
        d = record(t, v)
        return (len(d) + 3).to_bytes(2, "little") + bytes([t]) + d
    types = [t for t in sorted(L.TYPES) if t not in L.UNDECODABLE]
    for t in types:
        op("parse %d" % t, lambda v, t=t: [rec(t, v) if v else bytearray(rec(t, v))], same(lambda b: parser.ScadaParameterParser().parse(b)))
        op("object %d" % t, lambda v, t=t: [bytearray(record(t, v)) if v else record(t, v)],
           same(lambda b, t=t: ParameterFactory.from_bytes(ParameterObjectType(t), b)))

        def obj(v, t=t):
            return [ParameterFactory.from_bytes(ParameterObjectType(t), record(t, v))]

        def dump(o, t=t):
            r = ParameterSchemaFactory.by_parameter_id(ParameterObjectType(t))().dump(o)
            return json.dumps(r, sort_keys=True), r

        def data(v, t=t):
            o = ParameterFactory.from_bytes(ParameterObjectType(t), record(t, v))
            return [json.loads(json.dumps(ParameterSchemaFactory.by_parameter_id(ParameterObjectType(t))().dump(o)))]

        op("export %d" % t, obj, dump)

        def loose(x, v):
            """What a user may have put there himself."""
            if isinstance(x, str):
                return (" %s\t" % x if v else "\x00" + x.lower()) or " "
            if isinstance(x, bool) or x is None:
                return x
            if isinstance(x, float):
                return int(x) % 1000 if v else -0.0
            if isinstance(x, list):
                return [loose(y, v) for y in reversed(x)]
            return x

        def own(v, t=t, obj=obj):
            o = obj(v)[0]
            for f in attr.fields(type(o)):
                setattr(o, f.name, loose(getattr(o, f.name), v))
            return [o]

        def typed(v, t=t, data=data):
            return [{k: str(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else loose(x, v) for k, x in data(v)[0].items()}]
        if t in OWN:
            op("export own %d" % t, own, refused(dump))
        if t in OWN:
            op("import own %d" % t, typed, refused(lambda x, t=t: ParameterSchemaFactory.by_parameter_id(ParameterObjectType(t))().load(x)))
        op("import %d" % t, data, same(lambda x, t=t: ParameterSchemaFactory.by_parameter_id(ParameterObjectType(t))().load(x)))
    # calls which are refused: for every caller, every time, and without a trace
    def cut(v, n):
        b = rec(47, 0)[:-n] if v else rec(47, 1) + rec(65, 0)[:-n]
        return [bytearray(b) if v else b]
    op("stuff unterminated", lambda v: [bytearray(body(v)[:-1] + b"x") if v else body(v)[:-1] + b"x"], refused(utils.escape_characters))
    op("unstuff half an escape", lambda v: [bytearray(b"\x02\x05\x1b") if v else b"\x02\x1b\x1b\x1b"], refused(utils.return_characters))
    op("time from no time", lambda v: [bytearray(ref.time_bytes(T1)[:5] + b"\xaa") if v else b"\x61" + ref.time_bytes(T1)[1:]], refused(utils.bytes_to_datetime))
    op("time out of reach", lambda v: [T1.replace(year=1999 if v else 2100)], refused(utils.datetime_to_bytes))
    for K in (frames.Request, frames.EncryptedResponse):
        def damaged(v, K=K):
            b = bytearray(ref.frame(K.TYPE, 0x6C, body(v)))
            b[-3 + v] ^= 4
            return [b if v else bytes(b)]
        op("read damaged " + K.__name__, damaged, refused(K.from_bytes))
    op("encode unencodable", lambda v: [sut.request("params", object_count=65536 + v)], refused(lambda r: r.to_bytes()))
    op("decode too short", lambda v: [frames.Response(service=0x6B if v else 0x6C, destination_address_1=0, destination_address_2=0, source_address_1=0,
                                                      source_address_2=0, data=bytearray(3) if v else b"\x01\x02")],
       refused(lambda f: ResponsePduFactory.from_response(f)))
    op("call-in cut", lambda v: [bytes(c20.base(1))[:60 + v] if v else bytearray(c20.base(2))[:80]], refused(a.CallRequest.from_bytes))

    def forged(v):
        s = bytearray(ref.seal(body(v), sut.KEY, 3 + v))
        s[-1 - v] ^= 1
        return [security.CipherContext(security.EncryptionKeyId(3 + v), sut.KEY), s if v else bytes(s)]
    op("decrypt forged", forged, refused(lambda c, d: c.decrypt(d)))
    op("decrypt half a block", lambda v: [security.CipherContext(security.EncryptionKeyId(3), sut.KEY), ref.seal(body(v), sut.KEY, 3)[:-5]], refused(lambda c, d: c.decrypt(d)))
    op("parse cut", lambda v: cut(v, 4), refused(lambda b: parser.ScadaParameterParser().parse(b)))
    op("parse unknown", lambda v: [rec(47, v) + b"\x06\x00\xfaabc" + rec(65, v)], refused(lambda b: parser.ScadaParameterParser().parse(b)))
    op("object cut", lambda v: [bytearray(record(65, v))[:-7] if v else record(47, v)[:-1]],
       refused(lambda b: ParameterFactory.from_bytes(ParameterObjectType(47 if len(b) == len(record(47, 0)) - 1 else 65), b)))

    def incomplete(v):
        o = ParameterFactory.from_bytes(ParameterObjectType(47), record(47, v))
        d = json.loads(json.dumps(ParameterSchemaFactory.by_parameter_id(ParameterObjectType(47))().dump(o)))
        if v:
            d["nobody knows"] = 1
        else:
            del d["id"]
        return [d]
    op("import incomplete", incomplete, refused(lambda x: ParameterSchemaFactory.by_parameter_id(ParameterObjectType(47))().load(x)))
    # a parser which holds its data
    op("parser object", lambda v: [parser.ScadaParameterParser(data=rec(47, v) + rec(65, v) if v else bytearray(rec(48, v) + rec(30, v)))], same(lambda p: p.parse()))
    op("parse list", lambda v: [rec(47, v) + rec(65, v) + rec(30, 1 - v)], same(lambda b: parser.ScadaParameterParser().parse(b)))
    return out


MODES = ("fresh", "same", "spoil", "refill")
_table = {}


def table():
    """Operations and the results each gives in a process that has done nothing else."""
    if not _table:
        for o in ops():
            for v in (0, 1):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        try:
                            random.seed(7)
                            res, held = o.call(*o.make(v))
                            got = ("result", res, mutable(held))
                        except Exception as e:
                            got = ("raised", repr(e), False)
                        os.write(w, pickle.dumps(got))
                    finally:
                        os._exit(0)
                os.close(w)
                data = b""
                while True:
                    x = os.read(r, 65536)
                    if not x:
                        break
                    data += x
                os.close(r)
                os.waitpid(pid, 0)
                what, val, soft = pickle.loads(data)
                if what == "raised":
                    fail("%s (%d) raises %s" % (o.name, v, val))
                _table[o.name, v] = (o, val, soft)
    return _table


def play(seq, mode, ctx):
    """seq: [[name, variant], ...]; mode: fresh, same (one argument object per call and variant), spoil (the user changes every result), refill (only the contents of its containers)."""
    tab = table()
    pool, kept = {}, []
    for i, (name, v) in enumerate(seq):
        o, want = tab[name, v][:2]
        what = "%s (%d) after %s, %s" % (name, v, [tuple(x) for x in seq[:i]], mode)
        if mode in ("fresh", "refill"):
            args = o.make(v)
        else:
            args = pool.setdefault((name, v), None) or o.make(v)
            pool[name, v] = args
        before = snapshot(args)
        got, held = o.call(*args)
        ctx.step()
        if got != want:
            fail("%s: gives %r, in a fresh process %r" % (what, got, want))
        if snapshot(args) != before or [type(x) for x in args] != [type(x) for x in o.make(v)]:
            fail("%s: changes its argument" % what)
        for k, (h, s) in enumerate(kept):
            if snapshot(h) != s:
                fail("%s: changes the result of call %d" % (what, k))
        if mode == "spoil":
            spoil(held)
        elif mode == "refill":
            refill(held)
        kept.append((held, snapshot(held)))
        if mode in ("spoil", "refill") and snapshot(args) != before:
            fail("%s: changing the result changes the argument" % what)
        ctx.state(name, v, i, mode)
    ctx.trace()


def run_seqs(case, ctx):
    first, others, depth, mode = case
    for rest in itertools.product(others, repeat=depth - 1):
        play([first] + [list(x) for x in rest], mode, ctx)
    ctx.outcome(str(first), depth, mode)


def run_repeat(case, ctx):
    """One call over and over."""
    name, v, n, mode = case
    play([[name, (v + i) % 2 if n % 2 else v] for i in range(n)], mode, ctx)
    ctx.outcome(str(case))


def run_argument(case, ctx):
    """The user changes an argument after the call: the result stays; with the changed argument the call gives what it gives for it."""
    name, v = case
    tab = table()
    o, want = tab[name, v][:2]
    args = o.make(v)
    got, held = o.call(*args)
    snap = snapshot(held)
    for x in args:
        if isinstance(x, (bytearray, list, dict)):
            spoil(x)
    ctx.trace()
    ctx.step()
    if snapshot(held) != snap:
        fail("%s (%d): the result changes with the argument" % (name, v))
    again, _ = o.call(*o.make(v))
    if again != want:
        fail("%s (%d) after its argument was changed: gives %r, in a fresh process %r" % (name, v, again, want))
    # the other variant's content poured into the very same object
    args, other = o.make(v), o.make(1 - v)
    o.call(*args)
    for x, y in zip(args, other):
        if isinstance(x, bytearray):
            x[:] = y
        elif isinstance(x, dict):
            x.clear()
            x.update(copy.deepcopy(y))
        elif hasattr(x, "__dict__") and not isinstance(x, dt.datetime):
            x.__dict__.update(copy.deepcopy(y.__dict__))
        else:
            return
    ctx.step()
    got, _ = o.call(*args)
    if got != tab[name, 1 - v][1]:
        fail("%s: the object of variant %d filled with the content of the other one gives %r, expected %r" % (name, v, got, tab[name, 1 - v][1]))
    ctx.outcome(name, v)


def names():
    return sorted({k[0] for k in table()})


def families(tier):
    q = tier == "quick"

    def every():
        return [[n, v] for n in names() for v in (0, 1)]

    def pairs():
        e = every()
        for x in e:
            for mode in MODES if table()[x[0], x[1]][2] else MODES[:3]:
                yield [x, e, 2, mode]

    def triples():
        small = [x for x in every() if not any(w in x[0] for w in ("parse", "object", "export", "import"))] + \
            [[w % t, v] for t in ((47, 65) if q else (30, 47, 48, 65)) for w in ("parse %d", "object %d", "export %d", "import %d") for v in (0, 1)]
        odd = ("unterminated", "half a", "no time", "out of", "damaged", "unencodable", "too short", "cut", "forged", "with parts", "Encrypted", "three")
        if q:
            small = [x for x in small if x[1] or not any(w in x[0] for w in odd)]
        for x in small:
            for mode in (("spoil",) if q else ("fresh", "same", "spoil")):
                yield [x, small, 3, mode]

    def repeat():
        for x in every():
            for n in (20, 21) if q else (20, 21, 300, 301):
                for mode in MODES:
                    yield x + [n, mode]

    def argument():
        for x in every():
            yield x

    return [
        Family("argument", argument, run_argument, "every call: arguments changed and refilled afterwards"),
        Family("repeat", repeat, run_repeat, "every call over and over, alone and in turns with its variant"),
        Family("pairs", pairs, run_seqs, "all pairs of calls x equal arguments, the same arguments, results changed by their user"),
        Family("triples", triples, run_seqs, "all triples of calls over a smaller alphabet"),
    ]
