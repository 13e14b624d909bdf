"""C14 a paged parameter download is complete, ordered and gap-free."""
import itertools

from mc import layouts as L
from mc import ref, sut
from mc.clocks import at_paces, timed
from mc.core import Family, fail, hx
from mc.props.c04 import client

PROP, LEVEL = "C14", "model_checking"
RULE = ("a case is a division of the device's objects into pages x start index x kind of last page x end-flag value x encryption x chunking; a "
        "simulated device answers whatever index is asked; the request history and the resulting list are compared with the reference "
        "download; a state is (page division, index asked)")
ASSUMPTIONS = ["objects are not divided between pages", "the device sends at most 40 pages without objects in a row (families 'empty', 'emptyrow')"]

MIX = [47, 65, 34, 48, 31, 59, 77, 70]


def record(i, variant=0):
    t = MIX[i % len(MIX)]
    d = bytearray(L.sample(t, (i + 4 * variant) % 11, i % 3 != 0))
    d[0:2] = (i & 0xFFFF).to_bytes(2, "little")
    return t, bytes(d)


class Device:
    """Answers page requests; first object after `bounds[k]` starts a new page."""

    def __init__(self, total, bounds, enc, empty_last, flag, chunk, ctx, name, empties=()):
        self.total, self.bounds, self.enc, self.empty_last, self.flag = total, sorted(bounds), enc, empty_last, flag
        self.chunk, self.ctx, self.name = chunk, ctx, name
        self.empties = list(empties)    # indices at which a page without objects comes first
        self.pending = list(empties)
        self.asked, self.out, self.ended = [], [], False
        self.variant = {}               # objects which are not the usual ones
        self.same = lambda k: k         # objects which are byte for byte the same have the same number here
        self.number = lambda first, page, n: first      # what the pages' number field holds: index of the first object, number of the page, objects

    def connect(self):
        pass

    def disconnect(self):
        pass

    def send(self, data):
        f, p = sut.decode_request(data, self.enc)
        if f["service"] == ref.KINDS["time"]:
            self.queue(sut.response_wire("time", sut.RESP["time"], self.enc))
            return
        if f["service"] != 0x70 or len(p) != 14:
            fail("%s: not a parameter request: %s" % (self.name, hx(data)))
        i = p[10] + 256 * p[11]
        if self.ended:
            fail("%s: asks for index %d after the page flagged as last" % (self.name, i))
        if len(self.asked) > self.total + 3 + len(self.empties):
            fail("%s: download does not end, asked for %s" % (self.name, self.asked))
        self.asked.append(i)
        self.ctx.step()
        self.ctx.state(self.name, i)
        end = min([b for b in self.bounds if b > i] + [self.total])
        if i in self.pending:
            self.pending.remove(i)
            end = i
        objs = [record(self.same(k), self.variant.get(k, 0)) for k in range(i, end)]
        last = end >= self.total and not (self.empty_last and objs) and i not in self.pending and (end > i or i >= self.total)
        self.ended = last
        body = b"".join((len(d) + 3).to_bytes(2, "little") + bytes([t]) + d for t, d in objs)
        page = (self.number(i, len(self.asked) - 1, len(objs)) & 0xFFFF).to_bytes(2, "little") + len(objs).to_bytes(2, "little") + bytes([self.flag if last else 0]) + body
        self.queue(sut.response_wire("params", page, self.enc))

    def queue(self, w):
        if self.chunk == 0:
            self.out.append(w)
        else:
            n = self.chunk if self.chunk > 0 else len(w) + self.chunk
            self.out += [w[k:k + n] for k in range(0, len(w), n)]

    def recv(self):
        if not self.out:
            fail("%s: waits for data nobody sends" % self.name)
        return self.out.pop(0)


def download(dev, start, ctx, cl=None):
    cl = cl or client(dev, dev.enc)
    cl.connect()
    got = cl.read_parameters(start)
    what = dev.name
    exp = [record(dev.same(k), dev.variant.get(k, 0)) for k in range(start, dev.total)]
    if len(got) != len(exp):
        fail("%s: %d objects from index %d on, download returns %d" % (what, len(exp), start, len(got)))
    for k, ((t, d), g) in enumerate(zip(exp, got)):
        m = L.compare(t, d, g)
        if m:
            fail("%s: object %d: %s" % (what, start + k, m))
    want, i = [start], start
    left = list(dev.empties)
    while True:
        if i in left:
            left.remove(i)
            want.append(i)
            continue
        end = min([b for b in dev.bounds if b > i] + [dev.total])
        if end >= dev.total and not (dev.empty_last and end > i):
            break
        want.append(end)
        i = end
    if dev.asked != want:
        fail("%s: asks for indices %s, should be %s" % (what, dev.asked, want))
    if not dev.ended:
        fail("%s: stops before the last page" % what)
    if dev.out:
        fail("%s: part of an answer was not read" % what)
    return cl


def run_comp(case, ctx):
    total, bounds, enc, empty_last = case
    for start in range(0, total + 1):
        for flag, chunk in ((1, 0), (0xFF, 1), (0x80, -1), (2, 16)):
            ctx.trace()
            dev = Device(total, bounds, enc, empty_last, flag, chunk, ctx, "%d objects, pages at %s%s%s from %d" % (
                total, bounds, " + empty last page" if empty_last else "", " encrypted" if enc else "", start))
            cl = download(dev, start, ctx)
            if cl.read_time() != ref.decode_response("time", sut.RESP["time"])["time"]:
                fail("time after a download")
    ctx.outcome(str(case))


def run_equal(case, ctx):
    """Objects, and with them pages, that are byte for byte the same."""
    total, bounds, enc, period, base = case
    for start in range(0, total + 1):
        ctx.trace()
        dev = Device(total, bounds, enc, False, 1, 0, ctx, "%d objects, each %d the same, pages at %s%s from %d" % (total, period, bounds, " encrypted" if enc else "", start))
        dev.same = lambda k: base + k % period
        download(dev, start, ctx)
        ctx.state(total, str(bounds), enc, period, base, start)
    ctx.outcome(str(case))


def run_empty(case, ctx):
    """Pages without objects anywhere in between."""
    total, bounds, enc, empties, start = case
    ctx.trace()
    dev = Device(total, bounds, enc, False, 1, 0, ctx, "%d objects, pages at %s, pages without objects at %s, from %d" % (total, bounds, empties, start), empties)
    download(dev, start, ctx)
    ctx.outcome(str(case))


def run_again(case, ctx):
    """The same client downloads twice, from different indices."""
    total, bounds, enc, a, b = case
    cl = None
    for start in (a, b, a):
        ctx.trace()
        dev = Device(total, bounds, enc, False, 1, 0, ctx, "again %s from %d" % (bounds, start))
        if cl is not None:
            cl.transport = dev
        cl = download(dev, start, ctx, cl)
    ctx.outcome(str(case))


def run_changed(case, ctx):
    """The same client downloads several times; every page is as it was the last time or not, or there is one page more or less."""
    per, enc, rounds = case
    cl = None
    for n, kinds in enumerate(rounds):
        ctx.trace()
        total = per * len(kinds)
        dev = Device(total, list(range(per, total, per)), enc, False, 1, 0, ctx, "%d objects a page, downloads of pages %s, the one with number %d" % (per, rounds, n))
        # one object of a page that changes differs: the last one
        dev.variant = {per * (p + 1) - 1: v for p, v in enumerate(kinds)}
        if cl is not None:
            cl.transport = dev
        cl = download(dev, 0, ctx, cl)
    ctx.outcome(str(case))


NUMBERS = {"zero": lambda first, page, n: 0, "page": lambda first, page, n: page, "page1": lambda first, page, n: page + 1, "first1": lambda first, page, n: first + 1,
           "last": lambda first, page, n: first + n - 1, "next": lambda first, page, n: first + n, "full": lambda first, page, n: 0xFFFF,
           "down": lambda first, page, n: 100 - page, "high": lambda first, page, n: first << 8}


def run_numbers(case, ctx):
    """The number field of the pages holds something else than the index of the first object."""
    name, total, bounds, empties, start = case
    ctx.trace()
    dev = Device(total, bounds, len(bounds) % 2 == 1, False, 1, 0, ctx, "%d objects, pages at %s, pages without objects at %s, from %d, page number: %s" % (
        total, bounds, empties, start, name), empties)
    dev.number = NUMBERS[name]
    download(dev, start, ctx)
    ctx.outcome(str(case))


def run_wide(case, ctx):
    """Indices around byte borders and at the end of the range; large pages; many pages."""
    start, n, per, enc = case
    total = start + n
    bounds = list(range(start + per, total, per))
    dev = Device(total, bounds, enc, False, 1, 0, ctx, "objects %d-%d, %d a page" % (start, total - 1, per))
    download(dev, start, ctx)
    ctx.trace()
    ctx.outcome(str(case))


def run_default(case, ctx):
    """Without an index the download starts at 0."""
    total, bounds, enc = case
    dev = Device(total, bounds, enc, False, 1, 0, ctx, "default start %s" % (bounds,))
    cl = client(dev, enc)
    cl.connect()
    got = cl.read_parameters()
    if len(got) != total or dev.asked[0] != 0:
        fail("%s: %d of %d objects, asked %s" % (dev.name, len(got), total, dev.asked))
    ctx.trace()
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def equal_():
        for enc in (False, True):
            for total in range(2, 7 if q else 9):
                for n in range(total):
                    for bounds in itertools.combinations(range(1, total), n):
                        for period in (1, 2, 3):
                            for base in (0, 3):
                                yield [total, list(bounds), enc, period, base]

    def subsets(n):
        for k in range(0, n):
            for b in itertools.combinations(range(1, n), k):
                yield list(b)

    def comps():
        for total in range(0, 8 if q else 11):
            for b in subsets(max(1, total)):
                for enc in (False, True):
                    for e in (False, True):
                        yield [total, b, enc, e]

    def empty():
        for total in range(1, 6 if q else 8):
            for b in subsets(total):
                for start in (0, 1, total - 1) if q else range(total):
                    if start not in range(total):
                        continue
                    stops = [start] + [x for x in b if x > start]
                    for k in (1, 2, 3):
                        for e in itertools.combinations_with_replacement(stops, k):
                            yield [total, b, k == 2, list(e), start]

    def emptyrow():
        for total in (1, 2, 5):
            for b in ([], list(range(1, total))):
                for start in range(0, total):
                    for at in sorted({start, *[x for x in b if x > start]}):
                        for k in (4, 5, 6, 8, 10, 11, 16, 17, 40):
                            yield [total, b, k % 2 == 0, [at] * k, start]

    def again():
        for total in range(1, 6 if q else 7):
            for b in subsets(total):
                for a in range(total + 1):
                    for c in range(total + 1):
                        yield [total, b, (a + c) % 2 == 0, a, c]

    def changed():
        for per in (1, 2, 7, 20, 30):
            for enc in (False, True):
                vectors = [v for n in range(1, 4) for v in itertools.product((0, 1), repeat=n)]
                for a in vectors:
                    for b in vectors:
                        yield [per, enc, [a, b]]
                        if len(a) == len(b) and (per in (2, 20) or not q):
                            for c in vectors:
                                if len(c) == len(a):
                                    yield [per, enc, [a, b, c]]

    def numbers():
        for name in NUMBERS:
            for total in range(1, 6 if q else 8):
                for b in subsets(total):
                    for start in range(total):
                        yield [name, total, b, [], start]
                        if total < 5:
                            for e in sorted({start, *[x for x in b if x > start]}):
                                yield [name, total, b, [e], start]

    def wide():
        for start in (0, 1, 250, 255, 256, 257, 511, 3334, 0x0D1B, 65500):
            for n in (1, 2, 7, 13, 30):
                for per in (1, 2, 5, 8, 20):
                    for enc in (False, True):
                        yield [start, n, per, enc]
        for n in (60, 120, 300) if q else (60, 120, 300, 600, 1200):
            for per in (1, 7, 20):
                yield [0, n, per, False]
        for start in (0, 200, 60000):       # pages of more objects than fit a byte; downloads of more than 64 KiB; very many pages
            for n, per in ((255, 255), (256, 256), (257, 257), (300, 256), (700, 320), (600, 299), (1500, 250)):
                for enc in (False, True):
                    yield [start, n, per, enc]
        for n, per in ((2500, 1), (4000, 11)) if q else ((2500, 1), (4000, 11), (20000, 3), (12000, 1)):
            yield [0, n, per, False]

    def default():
        for total in range(0, 7):
            for b in subsets(max(1, total)):
                yield [total, b, False]

    def comps1():
        for total in range(1, 6):
            for b in subsets(total):
                yield [total, b, False]

    return [
        Family("clocks", at_paces(comps1), timed(run_default), "all divisions of up to 5 objects, the clocks of this computer running at ten paces"),
        Family("default", default, run_default, "without start index"),
        Family("divisions", comps, run_comp, "all divisions of up to 7 (thorough 10) objects x start x last page x flag x chunking"),
        Family("equal", equal_, run_equal, "objects which are the same, in all divisions of up to 6 (thorough 8)"),
        Family("empty", empty, run_empty, "up to three pages without objects in between"),
        Family("emptyrow", emptyrow, run_empty, "up to 40 pages without objects in a row"),
        Family("again", again, run_again, "three downloads on one client"),
        Family("changed", changed, run_changed, "two or three downloads on one client, each of whose pages is as it was before or not"),
        Family("numbers", numbers, run_numbers, "pages whose number field holds one of nine other numbers"),
        Family("wide", wide, run_wide, "indices around byte borders, up to 300 (thorough 1200) pages"),
    ]
