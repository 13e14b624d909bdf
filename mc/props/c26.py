"""C26 a session is configured with what the protocol can carry, or refused."""
import itertools

from mc import ref, sut
from mc.core import Family, fail

PROP, LEVEL = "C26", "exploration"
RULE = ("every integer around and far outside the range of each configured field, one at a time and in all border combinations, at creation of a "
        "connection or client and by assignment later; the accepted ones must be exactly those inside and must be what goes on the wire; "
        "non-trivial: a configuration accepted or refused")
ASSUMPTIONS = ["addresses and password ids are integers, passwords are strings",
               "a value assigned after creation may be refused when it is assigned or when it would have to be sent",
               "passwords of fewer than six characters may be refused at creation or when they would have to be sent"]
RANGES = {"source_address_1": (0, 65535), "source_address_2": (0, 255), "destination_address_1": (0, 65535), "destination_address_2": (0, 255),
          "password_id": (801, 849)}
FIELDS = list(RANGES)
OK = {"source_address_1": 0x1234, "source_address_2": 0x56, "destination_address_1": 0x789A, "destination_address_2": 0xBC, "password_id": 820, "password": "secpw7"}


def inside(conf):
    return all(lo <= conf[f] <= hi for f, (lo, hi) in RANGES.items()) and len(conf["password"]) <= 6


def make(conf):
    from elgas.connection import ElgasConnection
    return ElgasConnection(**conf)


SEALED = dict(encryption_key=sut.KEY, encryption_key_id=sut.KEY_ID)


def same_sealed(conf, ctx, want):
    """A key changes nothing about what is accepted."""
    try:
        c = make(dict(conf, **SEALED))
    except Exception as e:
        if want and len(conf["password"]) == 6:
            fail("configuration %s with a key is refused: %r" % (conf, e))
        return
    if not want:
        fail("configuration %s with a key is accepted" % conf)
    if len(conf["password"]) == 6:
        on_wire(c, conf, enc=True)
    ctx.state("accepted sealed")
    ctx.step()


def on_wire(c, conf, kind="values", enc=False):
    w = c.send(sut.request(kind, pw=conf["password"]))
    f, data = sut.decode_request(w, enc)
    if f["dst"] != (conf["destination_address_1"], conf["destination_address_2"]) or f["src"] != (conf["source_address_1"], conf["source_address_2"]):
        fail("configured as %s, the request carries %r %r" % (conf, f["dst"], f["src"]))
    if not ref.matches(ref.request_layout(kind, conf["password"], **sut.REQ_ARGS[kind]), data):
        fail("configured as %s, the request carries %s" % (conf, data.hex()))


def judge(conf, ctx, wire=True):
    ctx.trace()
    want = inside(conf)
    if wire:
        same_sealed(conf, ctx, want)
    try:
        c = make(conf)
    except Exception as e:
        if want and len(conf["password"]) == 6:
            fail("configuration %s is refused: %r" % (conf, e))
        ctx.state("refused", tuple(sorted(k for k in RANGES if not RANGES[k][0] <= conf[k] <= RANGES[k][1])))
        return
    if not want:
        fail("configuration %s is accepted" % conf)
    if wire and len(conf["password"]) == 6:
        on_wire(c, conf)
    ctx.state("accepted")
    ctx.step()


def run_one(case, ctx):
    """One field, a block of values."""
    name, lo, hi = case
    for v in range(lo, hi):
        judge(dict(OK, **{name: v}), ctx, v % 7 == 0 or hi - lo < 400)
    ctx.outcome(name, lo)


def run_far(case, ctx):
    name, v = case
    judge(dict(OK, **{name: v}), ctx)
    ctx.outcome(name, v)


NO_NUMBER = (None, "", "5", "820", b"", b"\x05", [], [5], {}, (), object)
NO_TEXT = (None, 5, 123456, 1.5, object)


def run_kinds(case, ctx):
    """Nothing, or something that is no number (no text), in one field: refused by connections and clients, with and without a key."""
    from elgas.client import ElgasClient
    from mc.props.c04 import Script
    name, i = case
    v = (NO_TEXT if name == "password" else NO_NUMBER)[i]
    for k in ({}, SEALED):
        for base in (OK, dict(OK, source_address_1=0, source_address_2=0, destination_address_1=0, destination_address_2=0, password_id=801, password="000000")):
            ctx.trace()
            ctx.step()
            try:
                c = make(dict(base, **{name: v}, **k))
            except Exception:
                ctx.state("refused", name, repr(v), bool(k))
            else:
                fail("configuration %s is accepted: %r" % (dict(base, **{name: v}), c))
            conf = {n: x for n, x in base.items() if n != name}
            try:
                c = make(dict(conf, **k))
            except Exception:
                pass
            else:
                fail("a configuration without %s is accepted: %r" % (name, c))
    if name == "password_id":
        try:
            c = ElgasClient(transport=Script([]), password="abcdef", password_id=v)
        except Exception:
            pass
        else:
            fail("a client with password id %r is accepted" % (v,))
    ctx.outcome(name, i)


def borders(name):
    lo, hi = RANGES[name]
    return [lo - 1, lo, hi, hi + 1]


def run_product(case, ctx):
    """Border values of all fields together."""
    sa1, sa2 = case
    for da1, da2, pid in itertools.product(*(borders(n) for n in FIELDS[2:])):
        for pw in ("abcdef", "abcdefg"):
            judge(dict(source_address_1=sa1, source_address_2=sa2, destination_address_1=da1, destination_address_2=da2, password_id=pid, password=pw), ctx)
    ctx.outcome(sa1, sa2)


def run_inner(case, ctx):
    """One field outside while all the others take several values inside: it is refused whatever they are."""
    name, v, i = case
    others = [n for n in FIELDS if n != name]
    vals = {n: sorted({RANGES[n][0], RANGES[n][0] + 1, (RANGES[n][0] + RANGES[n][1]) // 2, RANGES[n][1]}) for n in others}
    for combo in itertools.product(*(vals[n] for n in others)):
        for pw in ("abcdef", "000000"):
            judge(dict(zip(others, combo), password=pw, **{name: v}), ctx)
    ctx.outcome(name, v)


def run_password(case, ctx):
    n, ch = case
    judge(dict(OK, password=ch * n), ctx)
    from elgas.client import ElgasClient
    from mc.props.c04 import Script
    ctx.trace()
    try:
        ElgasClient(transport=Script([]), password=ch * n, password_id=820)
    except Exception:
        if n == 6:
            fail("a client with the password %r is refused" % (ch * n))
    else:
        if n > 6:
            fail("a client with the password %r is accepted" % (ch * n))
    ctx.outcome(n, ch)


def run_client(case, ctx):
    from elgas.client import ElgasClient
    from mc.props.c04 import Script
    for pid in range(case, case + 200):
        for enc in (False, True):
            ctx.trace()
            k = dict(encryption_key=sut.KEY, encryption_key_id=sut.KEY_ID) if enc else {}
            try:
                cl = ElgasClient(transport=Script([]), password=sut.PW, password_id=pid, **k)
            except Exception as e:
                if 801 <= pid <= 849:
                    fail("a client with password id %d is refused: %r" % (pid, e))
                continue
            if not 801 <= pid <= 849:
                fail("a client with password id %d is accepted" % pid)
            if cl.elgas_connection.password_id != pid or cl.elgas_connection.password != sut.PW:
                fail("a client with password id %d has a connection with %r" % (pid, cl.elgas_connection.password_id))
    ctx.outcome(case)


def run_later(case, ctx):
    """An address assigned after creation: what the protocol cannot carry never gets on the wire as something else."""
    name, lo, hi, kind, before = case
    for v in range(lo, hi):
        ctx.trace()
        conf = dict(OK)
        c = make(conf)
        if before:
            on_wire(c, conf, "time")
            c.receive_data(sut.response_wire("time", sut.RESP["time"]))
            if sut.poll(c)[0] != "answer":
                fail("no answer")
        good = RANGES[name][0] <= v <= RANGES[name][1]
        conf[name] = v
        try:
            setattr(c, name, v)
        except Exception as e:
            if good:
                fail("%s = %d is refused: %r" % (name, v, e))
            continue
        if good:
            on_wire(c, conf, kind)
            continue
        try:
            w = c.send(sut.request(kind, pw=conf["password"]))
        except Exception:
            ctx.state("later", name, v)
            continue
        fail("%s was set to %d, which the protocol cannot carry, and %s leaves" % (name, v, w.hex()))
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def one():
        for name, (lo, hi) in RANGES.items():
            a, b = (lo - 300, hi + 300) if hi < 5000 else (lo - 2000, hi + 2000)
            for k in range(a, b, 350):
                yield [name, k, min(k + 350, b)]

    def far():
        for name in FIELDS:
            for e in range(8, 40 if q else 130):
                for d in (-1, 0, 1):
                    for s in (1, -1):
                        for off in (0, RANGES[name][0]):
                            yield [name, s * (1 << e) + d + off]
            for v in range(0, 66000, 256 if q else 64):
                yield [name, v]
                yield [name, v + 65536]

    def product():
        for a in borders(FIELDS[0]):
            for b in borders(FIELDS[1]):
                yield [a, b]

    def inner():
        for name, (lo, hi) in RANGES.items():
            for i, v in enumerate((lo - 1, hi + 1, lo - 256, hi + 256, hi + 65536) if q else (lo - 1, lo - 2, hi + 1, hi + 2, lo - 256, hi + 256, lo - 65536, hi + 65536, 2 * hi, -hi)):
                yield [name, v, i]

    def password():
        for n in range(0, 41):
            for ch in ("a", "0", " ", "é", "ÿ", "\x00", "\r"):
                yield [n, ch]

    def client():
        for p in range(-200, 2000, 200):
            yield p

    def later():
        for name in FIELDS[:4]:
            hi = RANGES[name][1]
            for kind in ref.KINDS:
                for before in (0, 1):
                    yield [name, -5, 5, kind, before]
                    yield [name, hi - 4, hi + 6, kind, before]
                    yield [name, hi + 250, hi + 260, kind, before]
                    yield [name, 65530, 65545, kind, before]

    def kinds():
        for name in FIELDS:
            for i in range(len(NO_NUMBER)):
                yield [name, i]
        for i in range(len(NO_TEXT)):
            yield ["password", i]

    return [
        Family("kinds", kinds, run_kinds, "no value, or a value of another kind, in one field; a field left out"),
        Family("one", one, run_one, "every value of each field from below to above its range"),
        Family("far", far, run_far, "values far outside: around powers of two, multiples of 256"),
        Family("product", product, run_product, "border values of all fields together"),
        Family("inner", inner, run_inner, "one field outside, all others at several places inside"),
        Family("password", password, run_password, "passwords of 0 to 40 characters"),
        Family("client", client, run_client, "password ids given to a client"),
        Family("later", later, run_later, "addresses assigned after creation, before and after an exchange"),
    ]
