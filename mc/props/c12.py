"""C12 parameter objects decode field by field from their own bytes."""
import itertools
import struct

from mc import layouts as L
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.twins import twins

PROP, LEVEL = "C12", "exploration"
RULE = ("every parameter object type x every byte of its record x all 256 values over several backgrounds, with and without optional tail; "
        "every pair of fields with border values; every float exponent; texts of every length; every count of rows; each decoded object is "
        "compared attribute by attribute with an independent table of layouts; non-trivial: a record decoded and compared, or refused")
ASSUMPTIONS = ["the layout table was written once from the device records in the repository's tests and the code, and reviewed by hand",
               "measuring-digit fields may be rounded to seven decimals", "bytes behind the last known field of a record are not claimed",
               "texts: Latin-1 up to the last NUL, inner NULs are blanks, surrounding blanks do not belong to the text"]

EDGE = {0x1C, 0x1D, 0x1E, 0x1F, 0x85, 0xA0}      # bytes some strip() treat as blanks


def decode(t, d):
    from elgas.parameters.enumerations import ParameterObjectType
    from elgas.parameters.factory import ParameterFactory
    return ParameterFactory.from_bytes(ParameterObjectType(t), d)


def check(t, d, ctx, what=""):
    ctx.trace()
    e = L.expect(t, d)
    try:
        got = decode(t, bytes(d))
    except Exception as x:
        rows = d[34] * 10 if t == 48 and len(d) > 34 else 0
        if e is not None and len(d) <= L.size(t) + L.tail(t) + rows:
            fail("%s record %s %s is refused: %s: %s" % (L.TYPES[t], what, hx(d), type(x).__name__, x))
        return
    m = L.compare(t, d, got)
    if m:
        fail("%s (%s record %s)" % (m, what, hx(d)))


def backgrounds(t, tail):
    yield L.sample(t, 0, tail)
    d = L.sample(t, 5, tail, rows=0)
    z = bytearray(len(d))
    yield bytes(z)
    if t != 48:
        yield bytes([0x20]) * len(d)


def ambiguous(t, d):
    """A text whose border is a byte of unclear meaning (not a question of this property)."""
    e = [f for f in L.layout(t) if f.kind == "text" and not (f.opt and f.off >= len(d))]
    for f in e:
        raw = bytes(d[f.off:f.off + f.size])
        i = raw.rfind(b"\0")
        raw = (raw[:i] if i >= 0 else raw).replace(b"\0", b" ").strip(b" \t\n\r\x0b\x0c")
        if raw and (raw[0] in EDGE or raw[-1] in EDGE):
            return True
    return False


def run_bytes(case, ctx):
    t, tail, bg, pos = case
    d = bytearray(list(backgrounds(t, tail))[bg])
    isrow = t == 48 and pos == next(f.off for f in L.layout(48) if f.kind == "rows") - 1
    for v in range(256):
        d[pos] = v
        if t != 48 and ambiguous(t, d):
            continue
        if isrow:
            check(t, d + bytes((k * 3 + 1) & 255 for k in range(max(0, v * 10 - 20))) if bg == 0 else d, ctx)
        else:
            check(t, d, ctx)
    ctx.outcome(t, tail, bg, pos)


def special(f):
    if f.kind == "u":
        return [(v).to_bytes(f.size, "little") for v in {0, 1, (1 << 8 * f.size) - 1, 1 << (8 * f.size - 1), 0x0D1B8DFE & ((1 << 8 * f.size) - 1)}]
    if f.kind in ("f", "r"):
        return [struct.pack("<f" if f.size == 4 else "<d", v) for v in (0.0, -1.5, 1e-7, 3.0e38, float("nan"), float("-inf"))]
    if f.kind == "text":
        return [b"\0" * f.size, b"Q" * f.size, b"a\0b\0c".ljust(f.size, b"\0")[:f.size], b" \xe9x ".ljust(f.size, b" ")[:f.size], b"\0" + b"z" * (f.size - 1)]
    return [b"\0" * f.size, b"\xff" * f.size, bytes(range(1, f.size + 1))]


def run_pairs(case, ctx):
    t, tail, i, j = case
    lay = [f for f in L.layout(t) if f.size and (tail or not f.opt)]
    fa, fb = lay[i], lay[j]
    base = bytearray(L.sample(t, 1, tail, rows=0))
    for va in special(fa):
        for vb in special(fb):
            d = bytearray(base)
            d[fa.off:fa.off + fa.size] = va
            d[fb.off:fb.off + fb.size] = vb
            if t == 48:
                d = d[:34] + bytes([0]) + d[35:]
            check(t, d, ctx, "fields %s and %s" % (fa.name, fb.name))
    ctx.outcome(t, tail, i, j)


def run_floats(case, ctx):
    """Every exponent x sign x some mantissas of every float field."""
    t, k = case
    f = L.layout(t)[k]
    d = bytearray(L.sample(t, 2, True))
    if f.size == 4:
        pats = [(s << 31 | e << 23 | m).to_bytes(4, "little") for s in (0, 1) for e in range(256) for m in (0, 1, 0x400000, 0x2AAAAA, 0x7FFFFF)]
    else:
        pats = [(s << 63 | e << 52 | m).to_bytes(8, "little") for s in (0, 1) for e in range(2048) for m in (0, 1, 0x5555555555555)]
    for p in pats:
        d[f.off:f.off + f.size] = p
        check(t, d, ctx, f.name)
    ctx.outcome(t, k)


def run_text(case, ctx):
    """Texts of every length, with filling and rubbish behind the terminating NUL."""
    t, k = case
    f = L.layout(t)[k]
    d = bytearray(L.sample(t, 3, True))
    if t == 48:
        d = bytearray(L.sample(t, 3, True, rows=0))
    for n in range(f.size + 1):
        for body in (b"abcdefghij" * 9, b"x y " * 25, bytes(range(0x21, 0x7F)), bytes(range(0xA1, 0x100))):
            for fill in (b"\0", b" ", b"\0Z", b"\0\xff\0"):
                raw = (body[:n] + fill * f.size)[:f.size]
                d[f.off:f.off + f.size] = raw
                if not ambiguous(t, d):
                    check(t, d, ctx, f.name)
        for lead in (b" ", b"\0", b"\t", b"  \0 "):
            raw = (lead + b"w" * n + b"\0" * f.size)[:f.size]
            d[f.off:f.off + f.size] = raw
            check(t, d, ctx, f.name)
    ctx.outcome(t, k)


def run_short(case, ctx):
    """Cut after every byte: refused, unless exactly the optional tail is missing."""
    t, seed = case
    d = L.sample(t, seed, True)
    for n in range(len(d)):
        check(t, d[:n], ctx, "cut at %d" % n)
    ctx.outcome(t, seed)


def run_rows(case, ctx):
    n, tail = case
    for seed in range(4):
        check(48, L.sample(48, seed, tail, rows=n), ctx, "%d rows" % n)
        d = L.sample(48, seed, tail, rows=n)
        for cut in (1, 9, 10, 11):
            if n and not tail and cut <= len(d):
                check(48, d[:-cut], ctx, "%d rows cut by %d" % (n, cut))
    ctx.outcome(n, tail)


def run_order(case, ctx):
    """Objects decoded one after another do not influence each other."""
    a, b = case
    da, db = L.sample(a, 1, True), L.sample(b, 2, False)
    oa = decode(a, da)
    ob = decode(b, db)
    oa2 = decode(a, L.sample(a, 3, False))
    for t, d, o in ((a, da, oa), (b, db, ob), (a, L.sample(a, 3, False), oa2)):
        m = L.compare(t, d, o)
        if m:
            fail("decoding types %d and %d in turn: %s" % (a, b, m))
    ctx.trace(3)
    ctx.outcome(a, b)


def listed(t, d, what):
    """The record as it comes out of a downloaded list."""
    from elgas.parser import ScadaParameterParser
    got = ScadaParameterParser().parse((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d)
    if len(got) != 1:
        fail("list of one %s record (%s) gives %d objects" % (L.TYPES[t], what, len(got)))
    m = L.compare(t, d, got[0])
    if m:
        fail("%s (in a list, %s, record %s)" % (m, what, hx(d)))


def run_twins(case, ctx):
    """A record, one that is easily taken for it, and the first one again."""
    t, tail, part, parts = case
    a = bytes(L.sample(t, 1, tail))
    for what, b in twins(a, bits=False)[part::parts]:
        check(t, a, ctx, "record")
        if L.expect(t, b) is not None and not ambiguous(t, b):
            check(t, b, ctx, "record after its twin (%s)" % what)
            listed(t, a, what)
            if t != 48 or b[34] == a[34]:      # else the number of rows does not fit the length of the record
                listed(t, b, "%s, the twin" % what)
    check(t, a, ctx, "record after its twins")
    ctx.outcome(str(case))


def run_undecodable(case, ctx):
    t = case
    for with_tail in (True, False):
        d = L.sample(t, 0, with_tail)
        # the three error bit numbers may be part of the record (six more bytes) or not
        for rec in (d, d[:34] + b"\x01\x00\x02\x00\x03\x00" + d[34:]):
            try:
                o = decode(t, rec)
            except Exception as e:
                continue
            if type(o).__name__ != L.TYPES[t]:
                fail("type %d decodes to a %s" % (t, type(o).__name__))
            for name, kind, v in L.expect(t, rec)[:9]:
                if not L.same(kind, v, getattr(o, name)):
                    fail("%s.%s is %r, the record says %r" % (L.TYPES[t], name, getattr(o, name), v))
            ctx.outcome(t, "decoded")
            return
    ctx.outcome(t)
    fail("%s (type %d) cannot be decoded from any record" % (L.TYPES[t], t), key="type%d-never-decodes" % t)


def families(tier):
    q = tier == "quick"
    types = [t for t in L.TYPES if t not in L.UNDECODABLE]

    def bytes_():
        for t in types:
            for tail in (True, False) if L.tail(t) else (True,):
                bgs = list(backgrounds(t, tail))
                for bg in range(len(bgs)):
                    if q and (bg == 2 or (not tail and bg)) and len(bgs[0]) > 0:
                        continue
                    for pos in range(len(bgs[bg])):
                        yield [t, tail, bg, pos]

    def pairs():
        for t in types:
            for tail in (True,) if q or not L.tail(t) else (True, False):
                n = len([f for f in L.layout(t) if f.size and (tail or not f.opt)])
                for i, j in itertools.combinations(range(n), 2):
                    if q and n > 30 and (i + j) % 7 and j - i > 2:
                        continue
                    yield [t, tail, i, j]

    def kinds(ks):
        def gen():
            for t in types:
                for k, f in enumerate(L.layout(t)):
                    if f.kind in ks:
                        yield [t, k]
        return gen

    def short():
        for t in types:
            for s in range(3):
                yield [t, s]

    def twin():
        for t in types:
            for tail in (True, False) if L.tail(t) else (True,):
                for part in range(2):
                    yield [t, tail, part, 2]

    def rows():
        for n in range(0, 24 if q else 256):
            for tail in (True, False):
                yield [n, tail]

    def order():
        for a in types:
            for b in types:
                yield [a, b]

    return [
        Family("undecodable", lambda: iter(L.UNDECODABLE), run_undecodable, "types the code cannot decode"),
        Family("clocks", at_paces(lambda: ([a, b] for a in types[:1] for b in types)) , timed(run_order), "every type, the clocks of this computer running at ten paces"),
        Family("short", short, run_short, "cut after every byte"),
        Family("order", order, run_order, "every pair of types"),
        Family("twins", twin, run_twins, "records that agree in length and in a digest or sum, in turns"),
        Family("rows", rows, run_rows, "0-23 (thorough 255) rows"),
        Family("text", kinds(("text",)), run_text, "every text field, every length"),
        Family("floats", kinds(("f", "r")), run_floats, "every float field, every exponent"),
        Family("pairs", pairs, run_pairs, "border values in every pair of fields"),
        Family("bytes", bytes_, run_bytes, "every value of every byte"),
    ]
