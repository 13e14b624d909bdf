"""C09 requests are encoded exactly as the protocol lays them out."""
import datetime as dt
import itertools

from mc import ref, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.zones import in_zones, zoned
from mc.props.c04 import Script, client

PROP, LEVEL = "C09", "exploration"
RULE = ("every request kind with every value of each field (16-bit fields completely, 32-bit fields bytewise and at boundaries, every day, "
        "every second of a day, every Latin-1 character at every password position) plus the product of boundary values of all fields; "
        "each encoding is compared byte for byte with an independent layout (filler bytes free); non-trivial: the field under test is "
        "encoded or refused")
ASSUMPTIONS = ["the two filler bytes of the password field are free", "fractions of a second are not part of the protocol's time",
               "bit 0 of the write-time flags is not claimed when cryout is asked for"]

ARCHIVES = list(range(11))
TIMES = [dt.datetime(2000, 1, 1), dt.datetime(2099, 12, 31, 23, 59, 59), dt.datetime(2024, 2, 29, 12, 30, 45), dt.datetime(2010, 10, 10, 10, 10, 10)]
U16 = [0, 1, 9, 13, 0x1B, 0x8D, 0xFF, 0x100, 0x1FF, 0xD0D, 0x7FFF, 0x8000, 0xFF00, 0xFFFF]
U32 = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x0D1B8D00, 0x7FFFFFFF, 0x80000000, 0xFFFFFF, 0x1000000, 0xFFFFFFFF]
PWS = ["secpw7", "000000", "\x00\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff", "!\x03!\x03!\x03", " a b c", "ab cd ", "\t12 3\n", "      "]


def check(kind, pw, ctx, **over):
    got = bytes(sut.request(kind, pw=pw, **over).to_bytes())
    lay = ref.request_layout(kind, pw, **dict(sut.REQ_ARGS[kind], **over))
    if kind == "wtime" and over.get("cryout") and len(got) == 17:
        lay[-1] = lay[-1] | (got[-1] & 1)
    if not ref.matches(lay, got):
        fail("%s request with %r, password %r encodes as %s, should be %s" % (
            kind, dict(sut.REQ_ARGS[kind], **over), pw, hx(got), " ".join("??" if b is None else "%02x" % b for b in lay)))
    ctx.trace()


def run_u16(case, ctx):
    kind, field, hi = case
    for lo in range(256):
        check(kind, sut.PW, ctx, **{field: hi * 256 + lo})
    ctx.outcome(kind, field, hi)


def run_u32(case, ctx):
    pos, base = case
    for b in range(256):
        v = bytearray(base.to_bytes(4, "little"))
        v[pos] = b
        for a in (0, 10):
            check("arch", sut.PW, ctx, oldest=int.from_bytes(v, "little"), archive=a)
    ctx.outcome(pos, base)


def run_pairs(case, ctx):
    p1, p2, b1 = case
    v = [0x5A, 0xA5, 0x0D, 0xF0]
    v[p1] = b1
    for b2 in range(256):
        v[p2] = b2
        check("arch", sut.PW, ctx, oldest=int.from_bytes(bytes(v), "little"))
    ctx.outcome(p1, p2, b1)


def run_times(case, ctx):
    kind, year, month = case
    for d in range(1, ref.month_days(year, month) + 1):
        for h, m, s in ((0, 0, 0), (23, 59, 59), (9, 10, 19), (19, 39, 9)):
            check(kind, sut.PW, ctx, time=dt.datetime(year, month, d, h, m, s))
    ctx.outcome(kind, year, month)


def run_frac(case, ctx):
    """Fractions of a second are dropped (never rounded up), fold is ignored."""
    kind, us, fold = case
    for t in TIMES + [dt.datetime(2024, 3, 31, 2, 30), dt.datetime(2024, 10, 27, 2, 59, 59), dt.datetime(2024, 3, 10, 2, 30), dt.datetime(2024, 11, 3, 1, 59, 59)]:
        check(kind, sut.PW, ctx, time=t.replace(microsecond=us, fold=fold))
    ctx.outcome(kind, us, fold)


def run_secs(case, ctx):
    kind, hour = case
    for m in range(60):
        for s in range(60):
            check(kind, sut.PW, ctx, time=dt.datetime(2031, 7, 29, hour, m, s))
    ctx.outcome(kind, hour)


def run_pw(case, ctx):
    kind, pos, bg = case
    for ch in range(256):
        pw = list(bg * 6)
        pw[pos] = chr(ch)
        check(kind, "".join(pw), ctx)
    ctx.outcome(kind, pos, bg)


def run_product(case, ctx):
    kind, pi, i = case
    pw = PWS[pi]
    if kind in ("values", "time"):
        check(kind, pw, ctx)
    elif kind == "wtime":
        for c in (False, True):
            check(kind, pw, ctx, time=TIMES[i % 4], cryout=c)
    elif kind == "params":
        for b in U16:
            check(kind, pw, ctx, object_count=U16[i], buffer_length=b)
    elif kind == "arch":
        for a in ARCHIVES:
            for o in U32:
                check(kind, pw, ctx, archive=a, oldest=o, amount=U16[i])
    else:
        for a in ARCHIVES:
            for t in TIMES:
                check(kind, pw, ctx, archive=a, amount=U16[i], time=t)
    ctx.outcome(kind, pi, i)


NAMES = dict(EXTREME=0, DATA=1, BINARY=2, DAILY=3, MONTHLY=4, SETTING=5, FAST_1=6, FAST_2=7, STATUS=8, BILLING=9, GAS_COMPOSITION=10)


def run_names(case, ctx):
    """Archives asked for by their name."""
    kind, name = case
    from elgas import constants
    a = getattr(constants.Archive, name)
    for amount in U16:
        got = bytes(sut.request(kind, archive=a, amount=amount).to_bytes())
        lay = ref.request_layout(kind, sut.PW, **dict(sut.REQ_ARGS[kind], archive=NAMES[name], amount=amount))
        if not ref.matches(lay, got):
            fail("%s request for the %s archive encodes as %s" % (kind, name, hx(got)))
        ctx.trace()
    ctx.outcome(kind, name)


AGAIN = {"values": [{}], "time": [{}], "wtime": [dict(time=t) for t in TIMES[:3]], "params": [dict(object_count=a, buffer_length=b) for a, b in ((0, 1024), (0x1B0D, 1), (7, 0xFFFF))],
         "arch": [dict(archive=a, amount=b, oldest=c) for a, b, c in ((0, 1, 0), (10, 0x0D1B, 0xFFFFFFFF), (3, 0xFFFF, 13))],
         "archt": [dict(archive=a, amount=b, time=t) for a, b, t in ((0, 1, TIMES[0]), (10, 0x0D1B, TIMES[1]), (3, 0xFFFF, TIMES[2]))]}


def run_again(case, ctx):
    """Two request objects encoded in turns, through a session in between, and with fields changed: always what the fields say now."""
    (k1, i1), (k2, i2), enc = case
    a, b = AGAIN[k1][i1], AGAIN[k2][i2]
    r1, r2 = sut.request(k1, pw=PWS[0], **a), sut.request(k2, pw=PWS[3], **b)

    def look(kind, r, pw, over, when):
        got = bytes(r.to_bytes())
        if not ref.matches(ref.request_layout(kind, pw, **dict(sut.REQ_ARGS[kind], **over)), got):
            fail("%s request %s encodes as %s" % (kind, when, hx(got)))
        ctx.step()

    c = sut.conn(enc)
    for n in range(3):
        look(k1, r1, PWS[0], a, "encoded %d times, in turns with %s" % (n + 1, k2))
        look(k2, r2, PWS[3], b, "encoded %d times, in turns with %s" % (n + 1, k1))
        for kind, r, pw, over in ((k1, r1, PWS[0], a), (k2, r2, PWS[3], b)):
            w = c.send(r)
            f, data = sut.decode_request(w, enc)
            if f["service"] != ref.KINDS[kind] or not ref.matches(ref.request_layout(kind, pw, **dict(sut.REQ_ARGS[kind], **over)), data):
                fail("%s request sent again leaves as service %02x %s" % (kind, f["service"], hx(data)))
            c.receive_data(sut.response_wire(kind, sut.RESP[kind], enc))
            sut.poll(c)
            look(kind, r, pw, over, "after it was sent")
    # the fields of one request changed to those of the other
    if k1 == k2:
        other = sut.request(k2, pw=PWS[0], **b)
        try:
            for name in list(vars(r1)):
                if not name.startswith("_"):
                    setattr(r1, name, getattr(other, name))
        except (AttributeError, TypeError):
            return
        look(k1, r1, PWS[0], b, "with changed fields")
    ctx.outcome(str(case))


def refusals():
    for kind, field, good in (("params", "object_count", U16), ("params", "buffer_length", U16), ("arch", "amount", U16), ("archt", "amount", U16)):
        for v in (-1, -32768, -65536, 65536, 65537, 65791, 100000, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 40):
            yield [kind, field, v]
    for v in (-1, -(1 << 31), -(1 << 32), 1 << 32, (1 << 32) + 1, (1 << 32) + 255, 1 << 33, 1 << 40, 1 << 64):
        yield ["arch", "oldest", v]
    for kind in ("arch", "archt"):
        for v in (-1, -2, 256, 257, 1 << 16):
            yield [kind, "archive", v]
    for kind, field in (("params", "object_count"), ("params", "buffer_length"), ("arch", "amount"), ("archt", "amount"), ("arch", "oldest"),
                        ("arch", "archive"), ("archt", "archive")):
        for v in (0.5, 1.5, -0.5, 9.999, 255.5, 65535.5, "", "5", "0x10", None):      # no whole numbers
            yield [kind, field, v]
    for kind in ("wtime", "archt"):
        for y in (1, 99, 100, 1900, 1970, 1998, 1999, 2100, 2101, 2199, 2200, 9999):
            for md in ((1, 1), (12, 31), (6, 15)):
                yield [kind, "time", [y, md[0], md[1]]]
    for kind in ("values", "wtime", "params", "arch", "archt"):
        for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 20, 256):
            yield [kind, "pwlen", n]
        for pos in range(6):
            for ch in (0x100, 0x2014, 0x20AC, 0xFFFF, 0x1F600):
                yield [kind, "pwchar", [pos, ch]]


def run_refuse(case, ctx):
    kind, field, v = case
    pw, over = sut.PW, {}
    if field == "pwlen":
        pw = "p" * v
    elif field == "pwchar":
        pw = "p" * v[0] + chr(v[1]) + "p" * (5 - v[0])
    elif field == "time":
        over["time"] = dt.datetime(v[0], v[1], v[2], 1, 2, 3)
    else:
        over[field] = v
    for enc in (None, False, True):
        try:
            if enc is None:
                got = sut.request(kind, pw=pw, **over).to_bytes()
            else:
                got = sut.conn(enc).send(sut.request(kind, pw=pw, **over))
        except Exception:
            continue
        fail("%s request with %s=%r is not refused but encoded as %s" % (kind, field, v, hx(got)))
    ctx.step(3)
    ctx.outcome(kind, field, str(v))


def within(t, k):
    """The k-th fraction of the second t."""
    return t.replace(microsecond=(0, 1, 499999, 500000, 500001, 999999, 123456)[k % 7], fold=k % 3 == 1)


VARIANT = {"values": [{}, {}], "time": [{}, {}], "wtime": [dict(time=TIMES[0]), dict(time=TIMES[2])],
           "params": [dict(object_count=0, buffer_length=1024), dict(object_count=0x1B0D, buffer_length=1024)],
           "arch": [dict(archive=1, amount=5, oldest=7), dict(archive=5, amount=0x0D1B, oldest=0xFFFFFFFE)],
           "archt": [dict(archive=3, amount=1, time=TIMES[1]), dict(archive=10, amount=0xFFFF, time=TIMES[3])]}


def run_settings(case, ctx):
    """Operations of every kind in turns on one client whose user sets another password, other addresses or another link in between: every
    request is made from what is set and asked for then."""
    enc, first, changes = case
    from mc.props.c04 import Script, client
    for k2 in ref.KINDS:
        for v2 in (0, 1):
            for k3, v3 in ((k2, 1 - v2), tuple(first)):
                ctx.trace()
                links = [Script([]), Script([])]
                cl = client(links[0], enc)
                pw, addr, link = sut.PW, (0, 0, 0, 0), 0
                cl.connect()
                for n, (kind, v) in enumerate((first, (k2, v2), (k3, v3))):
                    for ch in changes[n]:
                        if ch == "password":
                            pw = "neu%03d" % n
                            cl.password = pw
                        elif ch == "address":
                            addr = (0x0D00 + n, n, 0x8D00 + n, 0x1B - n)
                            c = cl.elgas_connection
                            c.destination_address_1, c.destination_address_2, c.source_address_1, c.source_address_2 = addr
                        elif ch == "link":
                            link = 1 - link
                            cl.transport = links[link]
                            cl.connect()
                        elif ch == "reconnect":
                            cl.disconnect()
                            cl.connect()
                    over = VARIANT[kind][v]
                    links[link].chunks.append(sut.response_wire(kind, sut.RESP[kind] if kind != "params" else b"\x00\x00\x00\x00\x01", enc))
                    if kind == "values":
                        cl.read_instantaneous_values()
                    elif kind == "time":
                        cl.read_time()
                    elif kind == "wtime":
                        cl.write_time(over["time"])
                    elif kind == "params":
                        cl.read_parameters(over["object_count"])
                    elif kind == "arch":
                        cl.read_archive(sut.arch(over["archive"]), over["amount"], over["oldest"])
                    else:
                        cl.read_archive_by_time(sut.arch(over["archive"]), over["amount"], over["time"])
                    what = "operation %d (%s) of %s, changes %s" % (n, kind, [first, (k2, v2), (k3, v3)], changes)
                    if len(links[link].sent) != 1 or links[1 - link].sent:
                        fail("%s: %d requests over the link, %d over the other one" % (what, len(links[link].sent), len(links[1 - link].sent)))
                    f, data = sut.decode_request(links[link].sent.pop(), enc)
                    lay = ref.request_layout(kind, pw, **dict(sut.REQ_ARGS[kind], **over))
                    if kind == "params":
                        lay[-2:] = [None, None]
                    if f["service"] != ref.KINDS[kind] or not ref.matches(lay, data):
                        fail("%s: service %02x payload %s" % (what, f["service"], hx(data)))
                    if f["dst"] + f["src"] != addr:
                        fail("%s: from and to %r %r, set were %r" % (what, f["dst"], f["src"], addr))
                    ctx.step()
                    ctx.state(enc, kind, v, tuple(changes[n]), n)
    ctx.outcome(str(case))


def run_client(case, ctx):
    """The client builds the request from the arguments of the operation."""
    kind, i, enc, pi = case
    pw = sut.PW if pi is None else PWS[pi]
    tr = Script([])
    cl = client(tr, enc, pw)
    cl.connect()
    over = {}
    payload = sut.RESP[kind] if kind != "params" else b"\x00\x00\x00\x00\x01"
    for j in range(12):
        tr.chunks.append(sut.response_wire(kind, payload, enc))
        if kind == "values":
            cl.read_instantaneous_values()
        elif kind == "time":
            cl.read_time()
        elif kind == "wtime":
            over = dict(time=within(TIMES[(i + j) % 4], i * 5 + j))
            cl.write_time(over["time"], **({"cryout": bool(j & 1)} if j & 2 else {}))
        elif kind == "params":
            over = dict(object_count=U16[(i + j) % len(U16)], buffer_length=1024)
            cl.read_parameters(over["object_count"])
        elif kind == "arch":
            over = dict(archive=ARCHIVES[(i + j) % 11], amount=U16[(i + 2 * j) % len(U16)], oldest=U32[(i + 5 * j) % len(U32)])
            cl.read_archive(sut.arch(over["archive"]), over["amount"], over["oldest"])
        else:
            over = dict(archive=ARCHIVES[(i + j) % 11], amount=U16[(i + 2 * j) % len(U16)], time=within(TIMES[(i + j // 2) % 4], i * 5 + j))
            cl.read_archive_by_time(sut.arch(over["archive"]), over["amount"], over["time"])
        if len(tr.sent) != 1:
            fail("client %s sent %d requests" % (kind, len(tr.sent)))
        w = tr.sent.pop()
        if kind == "params":
            f, data = sut.decode_request(w, enc)
            lay = ref.request_layout(kind, pw, **over)
            lay[-2:] = [None, None]     # the page size is the client's choice
            if not ref.matches(lay, data) or f["service"] != 0x70:
                fail("client read_parameters(%d) sends %s" % (over["object_count"], hx(data)))
        elif kind == "wtime" and j & 3 == 3:
            f, data = sut.decode_request(w, enc)
            lay = ref.request_layout(kind, pw, **over)
            lay[-1] |= data[-1] & 1 if data else 0
            if not ref.matches(lay, data) or f["service"] != 0x71:
                fail("client write_time with cryout sends %s" % hx(data))
        else:
            sut.check_request(kind, w, enc, pw=pw, **over)
        ctx.trace()
        ctx.state(kind, pw, enc, str(over))
    ctx.outcome(kind, i, enc, pi)


def families(tier):
    q = tier == "quick"

    def u16():
        for kind, f in (("params", "object_count"), ("params", "buffer_length"), ("arch", "amount"), ("archt", "amount")):
            for hi in range(256):
                yield [kind, f, hi]

    def u32():
        for pos in range(4):
            for base in U32 if q else [x ^ y for x in U32 for y in U32[:6]]:
                yield [pos, base]

    def pairs():
        for p1, p2 in itertools.combinations(range(4), 2):
            for b1 in range(256):
                yield [p1, p2, b1]

    def times():
        for kind in ("wtime", "archt"):
            for y in range(2000, 2100):
                for m in range(1, 13):
                    yield [kind, y, m]

    def secs():
        for kind in ("wtime", "archt"):
            for h in range(24):
                yield [kind, h]

    def pws():
        for kind in ("values", "wtime", "params", "arch", "archt"):
            for pos in range(6):
                for bg in ("a", "\x00", "\xff", "!"):
                    yield [kind, pos, bg]

    def product():
        for kind in ref.KINDS:
            for pi in range(len(PWS)):
                for i in range(len(U16)):
                    yield [kind, pi, i]

    def names():
        for kind in ("arch", "archt"):
            for n in NAMES:
                yield [kind, n]

    def clients():
        for kind in ref.KINDS:
            for i in range(12 if q else 154):
                for enc in (False, True):
                    yield [kind, i, enc, None]
            for pi in range(len(PWS)):
                for enc in (False, True):
                    yield [kind, pi, enc, pi]

    def settings():
        kinds = [[], ["password"], ["address"], ["link"], ["reconnect"], ["password", "address"], ["link", "password"]]
        for enc in (False, True):
            for k in ref.KINDS:
                for v in (0, 1):
                    for a in kinds:
                        for b in kinds:
                            yield [enc, [k, v], [[], a, b]]
                            if not q:
                                for c in kinds:
                                    yield [enc, [k, v], [c, a, b]]

    def zmonths():
        for kind in ("wtime", "archt"):
            for y in (2000, 2024, 2037, 2038, 2099) if q else range(2000, 2100):
                for m in range(1, 13):
                    yield [kind, y, m]

    def fracs():
        for kind in ("wtime", "archt"):
            for us in (0, 1, 499999, 500000, 500001, 999999):
                for fold in (0, 1):
                    yield [kind, us, fold]

    def again():
        all_ = [(k, i) for k in ref.KINDS for i in range(len(AGAIN[k]))]
        for x in all_:
            for y in all_:
                for enc in (False, True):
                    yield [list(x), list(y), enc]

    return [
        Family("clocks", at_paces(clients), timed(run_client), "client operations, the clocks of this computer running at ten paces"),
        Family("clocks2", at_paces(fracs), timed(run_frac), "times with fractions of a second, the clocks running at ten paces"),
        Family("names", names, run_names, "every archive by its name"),
        Family("again", again, run_again, "all pairs of requests encoded and sent in turns, three times"),
        Family("zones", in_zones(zmonths, fracs), zoned(lambda c, ctx: run_times(c, ctx) if c[1] in range(2000, 2100) else run_frac(c, ctx)),
               "times under seven local time zones, with fractions of a second and fold"),
        Family("product", product, run_product, "product of boundary values of all fields"),
        Family("refuse", refusals, run_refuse, "values outside each field"),
        Family("client", clients, run_client, "client operations with boundary arguments"),
        Family("settings", settings, run_settings, "three client operations in a row, password, addresses, link changed in between or not"),
        Family("u16", u16, run_u16, "every 16-bit value"),
        Family("u32", u32, run_u32, "every byte value at each position of the record id"),
        Family("u32pairs", pairs, run_pairs, "every pair of bytes of the record id"),
        Family("times", times, run_times, "every day 2000-2099"),
        Family("seconds", secs, run_secs, "every second of a day"),
        Family("passwords", pws, run_pw, "every Latin-1 character at every position"),
    ]
