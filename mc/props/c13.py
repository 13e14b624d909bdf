"""C13 a parameter list is decoded record by record, or refused."""
import itertools

from mc import layouts as L
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.twins import twins

PROP, LEVEL = "C13", "exploration"
RULE = ("every sequence of record types up to the bound, every cut position, every length value, every type byte, every trailing rest; the "
        "result is compared with an independent list decoder (objects in order, each equal to the record alone) or must be refused; "
        "non-trivial: a list parsed or refused")
ASSUMPTIONS = ["an empty list is not claimed", "records with bytes behind their last known field may be decoded or refused",
               "types 61 and 62 (known finding of C12) may be refused anywhere"]
TYPES = [t for t in L.TYPES if t not in L.UNDECODABLE]


def record(t, data, length=None):
    n = len(data) + 3 if length is None else length
    return n.to_bytes(2, "little") + bytes([t]) + data


def reference(d):
    """list of (type, data, exact) or None."""
    out = []
    while d:
        if len(d) < 3:
            return None
        n, t = d[0] + 256 * d[1], d[2]
        if t not in L.TYPES or n < 3 or n > len(d):
            return None
        data = d[3:n]
        if L.expect(t, data) is None:
            return None
        rows = data[34] * 10 if t == 48 else 0
        out.append((t, data, t not in L.UNDECODABLE and len(data) <= L.size(t) + L.tail(t) + rows))
        d = d[n:]
    return out


def parse(d, how=0):
    from elgas.parser import ScadaParameterParser
    if how == 1:
        return ScadaParameterParser(data=bytes(d)).parse()
    if how == 2:
        return ScadaParameterParser().parse(bytearray(d))
    return ScadaParameterParser().parse(bytes(d))


def check(d, ctx, what, how=0, parser=None):
    ctx.trace()
    exp = reference(bytes(d))
    try:
        got = parse(d, how) if parser is None else parser.parse(bytes(d))
    except Exception as e:
        if exp is not None and all(x[2] for x in exp):
            fail("%s: %s is refused: %s: %s" % (what, hx(d), type(e).__name__, e))
        return False
    if exp is None:
        fail("%s: %s should be refused, gives %d objects: %r" % (what, hx(d), len(got), got))
    if len(got) != len(exp):
        fail("%s: %d records give %d objects" % (what, len(exp), len(got)))
    for i, ((t, data, _), g) in enumerate(zip(exp, got)):
        m = L.compare(t, data, g)
        if m:
            fail("%s: object %d: %s" % (what, i, m))
    return True


def variants(t):
    v = [L.sample(t, 0, True)]
    if L.tail(t):
        v.append(L.sample(t, 1, False))
    if t == 48:
        v += [L.sample(48, 2, True, rows=0), L.sample(48, 3, False, rows=5)]
    return v


def run_seq(case, ctx):
    """All sequences which end with each type, for a prefix."""
    for last in TYPES:
        for vi in range(2):
            seq = [variants(t)[(vi + i) % len(variants(t))] for i, t in enumerate(case)] + [variants(last)[vi % len(variants(last))]]
            types = list(case) + [last]
            d = b"".join(record(t, x) for t, x in zip(types, seq))
            if not check(d, ctx, "types %s" % types, how=vi + 1):
                fail("types %s refused" % types)
            alone = [parse(record(t, x))[0] for t, x in zip(types, seq)]
            if parse(d) != alone:
                fail("types %s: objects differ from the ones decoded alone" % types)
    ctx.outcome(tuple(case))


def run_cut(case, ctx):
    a, b, vi = case
    d = record(a, variants(a)[vi % len(variants(a))])
    if b is not None:
        d += record(b, variants(b)[(vi + 1) % len(variants(b))])
    for n in range(1, len(d)):
        check(d[:n], ctx, "types %s,%s cut to %d of %d bytes" % (a, b, n, len(d)), how=n % 3)
    for extra in (b"\0", b"\0\0", b"\x03", b"\x03\0", b"\x0d", b"\xff\xff", b"\x03\0\0", b"\x04\0\x30\0", b"\0\0\0", b"\x02\0\x30", b"\0" * 7):
        check(d + extra, ctx, "types %s,%s with %s behind" % (a, b, extra.hex()))
        check(extra + d, ctx, "types %s,%s with %s before" % (a, b, extra.hex()))
    ctx.outcome(a, b, vi)


def run_length(case, ctx):
    """Every value of a record's length field."""
    a, b, hi = case
    da, db = variants(a)[0], variants(b)[0]
    for lo in range(256):
        n = hi * 256 + lo
        check(record(a, da, n) + record(b, db), ctx, "length of the first record is %d" % n)
        check(record(b, db) + record(a, da, n), ctx, "length of the last record is %d" % n)
    ctx.outcome(a, b, hi)


def run_type(case, ctx):
    """Every type byte in front of every record's data."""
    t, pos = case
    for other in range(256):
        for data in variants(t):
            d = record(other, data)
            if pos == 1:
                d = record(47, variants(47)[0]) + d
            elif pos == 2:
                d = d + record(47, variants(47)[0])
            check(d, ctx, "type byte %d" % other)
    ctx.outcome(t, pos)


def run_long(case, ctx):
    """Long lists: n rounds over all types; one parser used for several lists."""
    from elgas.parser import ScadaParameterParser
    n, rot = case
    ts = (TYPES[rot:] + TYPES[:rot]) * n
    d = b"".join(record(t, variants(t)[(i // 3) % len(variants(t))]) for i, t in enumerate(ts))
    p = ScadaParameterParser()
    for _ in range(2):
        if not check(d, ctx, "%d records" % len(ts), parser=p):
            fail("%d records refused" % len(ts))
        check(d[:-1], ctx, "%d records, last byte missing" % len(ts), parser=p)
        check(record(30, L.sample(30)), ctx, "one record after a long list", parser=p)
    ctx.outcome(n, rot)


def run_reuse(case, ctx):
    """Results of one parser (or of several) stay what they were while further lists are parsed or refused."""
    from elgas.parser import ScadaParameterParser
    first, second, one = case
    d1, d2 = (b"".join(record(t, variants(t)[i % len(variants(t))]) for i, t in enumerate(ts)) for ts in (first, second))
    p = ScadaParameterParser()
    held = []
    for step, d in enumerate((d1, d2, d1[:-1], d2 + b"\x03", d1 + d2, d1)):
        ctx.trace()
        try:
            held.append((step, d, (p if one else ScadaParameterParser()).parse(d)))
        except Exception as e:
            if all(x[2] for x in reference(d) or [(0, 0, False)]):
                fail("types %s, then %s: list %d is refused: %s: %s" % (first, second, step, type(e).__name__, e))
        for at, x, got in held:
            exp = reference(x)
            if exp is None:
                fail("types %s, then %s: list %d should be refused, gives %d objects" % (first, second, at, len(got)))
            if len(got) != len(exp):
                fail("types %s, then %s: list %d of %d records is %d objects long after list %d was parsed" % (first, second, at, len(exp), len(got), step))
            for i, ((t, data, _), g) in enumerate(zip(exp, got)):
                m = L.compare(t, data, g)
                if m:
                    fail("types %s, then %s: object %d of list %d after list %d: %s" % (first, second, i, at, step, m))
            ctx.step()
            ctx.state(str(case), at, step)
    lists = [id(g) for _, _, g in held]
    if len(set(lists)) != len(lists):
        fail("types %s, then %s: two results are the same list" % (first, second))
    ctx.outcome(str(case))


def run_damage(case, ctx):
    """Any single byte of the headers replaced by any value in a three record list."""
    a, b, c = case
    recs = [record(t, variants(t)[0]) for t in (a, b, c)]
    d = b"".join(recs)
    off = 0
    for r in recs:
        for k in range(3):
            for v in range(256):
                x = bytearray(d)
                x[off + k] = v
                check(x, ctx, "types %s, byte %d is %d" % (case, off + k, v))
        off += len(r)
    ctx.outcome(a, b, c)


def run_twins(case, ctx):
    """A record, one that is easily taken for it, and the first one again in a list."""
    t, vi, part, parts = case
    a = variants(t)[vi]
    for what, b in twins(a, bits=False)[part::parts]:
        if L.expect(t, b) is None:
            continue
        check(record(t, a) + record(t, b) + record(t, a), ctx, "type %d, twins (%s)" % (t, what))
        ctx.state(t, vi, what)
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def twin():
        for t in TYPES:
            for vi in range(len(variants(t))):
                for part in range(2):
                    yield [t, vi, part, 2]

    def seqs():
        yield []
        for a in TYPES:
            yield [a]
        for a, b in itertools.product(TYPES, repeat=2):
            yield [a, b]

    def cuts():
        for a in TYPES:
            yield [a, None, 0]
            yield [a, None, 1]
            for b in ((47, 48, 31, 65) if q else TYPES):
                yield [a, b, 0]
                yield [a, b, 1]

    def lengths():
        for a, b in ((47, 65), (48, 31), (0, 47)) if q else ((47, 65), (48, 31), (0, 47), (30, 30), (141, 36), (31, 48), (65, 65)):
            for hi in range(256):
                yield [a, b, hi]

    def types():
        for t in TYPES:
            for pos in (0, 1, 2):
                yield [t, pos]

    def reuse():
        for a, b in itertools.product(TYPES, repeat=2):
            for one in (0, 1):
                yield [[a], [b], one]
                yield [[a, b], [b, a, b], one]
                if not q:
                    for c in TYPES:
                        yield [[a, c], [b], one]

    def long():
        for n in (1, 2, 3) if q else (1, 2, 3, 5, 10, 20):
            for rot in range(0, len(TYPES), 1):
                yield [n, rot]
        for n in (7, 13, 32, 60) if q else (7, 13, 32, 60, 130, 300):
            for rot in (0, 11):
                yield [n, rot]

    def damage():
        for c in itertools.product((47, 48, 31), repeat=3) if q else itertools.product((47, 48, 31, 65, 30, 59), repeat=3):
            yield list(c)

    return [
        Family("clocks", at_paces(lambda: ([a] for a in TYPES)), timed(run_seq), "one record, the clocks of this computer running at ten paces"),
        Family("sequences", seqs, run_seq, "all sequences of up to 3 records"),
        Family("long", long, run_long, "long lists, one parser reused"),
        Family("reuse", reuse, run_reuse, "results looked at again after further lists, one parser or several"),
        Family("twins", twin, run_twins, "two records of a type that agree in length and in a digest or sum, in turns"),
        Family("types", types, run_type, "every type byte"),
        Family("cuts", cuts, run_cut, "every cut position, trailing and leading rests"),
        Family("lengths", lengths, run_length, "all 65536 length values"),
        Family("damage", damage, run_damage, "any header byte replaced"),
    ]
