"""C16 transports deliver the byte stream line by line and never hang."""
import itertools

from mc.core import Family, fail, hx, un
from mc import world
from mc.world import TICK, World, installed, transport

PROP, LEVEL = "C16", "model_checking"
RULE = ("a case is one environment script for a transport: which bytes the operating system hands over in which segments, after which delays on "
        "a virtual clock, and where the link fails (end of stream, reset, silence); recv() is called until the script is used up and "
        "every result is judged by position, terminator and elapsed time; a state is (kind, bytes consumed, bytes arrived, result class)")
ASSUMPTIONS = ["a time-out of 0 (non-blocking) is not part of the claim",
               "the fake operating system is validated against real loopback sockets and pseudo terminals (family real)"]
T = 10.0
EPS = 0.05


def script(link, segs):
    """segs: [delay, hex | 'eof' | 'reset' | 'oserror']"""
    import serial
    t = link.w.now
    for delay, item in segs:
        t += delay * T
        if item == "reset":
            item = ConnectionResetError(104, "Connection reset by peer") if isinstance(link, world.FakeSocket) else serial.SerialException("read failed")
        elif item == "oserror":
            item = OSError(5, "Input/output error")
        elif item != "eof":
            item = un(item)
        link.incoming.append([t, item])


def arrivals(base, segs):
    """[(time, byte or fault name)] in order."""
    out, t = [], base
    for delay, item in segs:
        t += delay * T
        if item in ("eof", "reset", "oserror"):
            out.append((t, item))
        else:
            out += [(t, b) for b in un(item)]
    return out


def judge(w, tr, arr, ctx, tag, calls):
    """Call recv() and compare with the arrivals (arr may contain faults as strings).

    at: all positions in the stream the receiver may be at; after an error the unfinished line may or may not be dropped.
    passing: read failures that are over and were reported."""
    from elgas import exceptions
    at, quiet = {0}, 0
    link, passing = w.links[-1], set()

    def consume(pos, n):
        """The next n bytes from pos, and the position behind them."""
        out = bytearray()
        while len(out) < n and pos < len(arr) and (pos in passing or not isinstance(arr[pos][1], str)):
            if pos not in passing:
                out.append(arr[pos][1])
            pos += 1
        return bytes(out), pos

    for _ in range(calls):
        t0, c0 = w.now, w.calls
        try:
            d, err = tr.recv(), None
        except exceptions.CommunicationError as e:
            d, err = None, e
        took = w.now - t0
        if took > 2 * T + 1:
            fail("%s: one recv() took %.1f s with a time-out of %.1f s" % (tag, took, T))
        ctx.step(w.calls - c0)
        if err is not None:
            ctx.state(tag[:6], min(at), "error", round(took / T, 1))
            ok = set()
            for pos in at:
                fault = next((i for i in range(pos, len(arr)) if isinstance(arr[i][1], str) and i not in passing), len(arr))
                line = next((i for i in range(pos, len(arr)) if arr[i][1] == 13), len(arr))
                if line < fault and arr[line][0] - t0 < T - EPS:
                    continue                       # should have been delivered
                met = fault < len(arr) and arr[fault][0] <= w.now
                if not met and took < T - EPS:
                    continue                       # nothing happened that could fail
                if met and arr[fault][1] == "eof":
                    ok.add(fault)
                elif met:
                    ok |= {fault + 1, pos}         # the failed read is over
                if took >= T - EPS:                # silence: what had come may be dropped, but no complete line
                    for p in range(pos, min(line, fault) + 1):
                        if p < len(arr) and arr[p][0] > w.now:
                            ok.add(p)
                            break
                        ok.add(p)
            if not ok:
                fail("%s: recv() failed after %.2f s although a complete line was there in time, or nothing had happened: %r" % (tag, took, err))
            at = ok
            faults = [i for i, x in enumerate(arr) if x[1] in ("reset", "oserror")]
            passing |= set(faults[:len(faults) - sum(isinstance(x[1], BaseException) for x in link.incoming)])
            if all(p >= len(arr) or arr[p][1] == "eof" for p in at):
                quiet += 1
            if quiet >= 2:
                return
            continue
        if not isinstance(d, (bytes, bytearray)):
            fail("%s: recv() gives %r" % (tag, d))
        d = bytes(d)
        done = d[-1:] == b"\x0d"
        if 13 in d[:-1]:
            fail("%s: recv() gives more than one line: %s" % (tag, hx(d)))
        if not done and took < T - EPS:
            fail("%s: recv() gives %s without terminator after %.2f s" % (tag, hx(d), took))
        ok = {e for got, e in [consume(s, len(d)) for s in at] if d and got == d}
        if not ok:
            fail("%s: recv() gives %s, the link carried %s (position %s)" % (tag, hx(d), [x[1] for x in arr], sorted(at)))
        if done and all(w.now > max(t0, arr[e - 1][0]) + EPS + 4 * TICK * len(d) for e in ok):
            fail("%s: recv() kept waiting after the line was complete" % tag)
        if not done and all(w.now - arr[e - 1][0] >= T - EPS and w.now > t0 for e in ok):
            fail("%s: the peer fell silent and recv() gives the unfinished line %s" % (tag, hx(d)))
        at = ok
        ctx.state(tag[:6], min(at), done, round(took / T, 1))


def run(case, ctx):
    kind, segs = case
    w = World(reads_limit=5000)
    w.where = "recv"
    tag = "%s %s" % (kind, segs)
    with installed(w):
        tr = transport(kind, T)
        tr.connect()
        script(w.links[-1], segs)
        arr = arrivals(w.now, segs)
        judge(w, tr, arr, ctx, tag, len(arr) + 3)
    ctx.outcome(kind, str(segs))


def run_block(case, ctx):
    """All segmentations of a stream x gaps at up to two places x an ending."""
    kind, stream, ending, ngaps = case
    b = un(stream)
    n = len(b)
    for m in range(1 << max(0, n - 1)):
        cuts = [0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]
        parts = [hx(b[x:y]) for x, y in zip(cuts, cuts[1:]) if y > x]
        for where in itertools.chain.from_iterable(itertools.combinations(range(len(parts)), k) for k in range(ngaps + 1)):
            for gaps in itertools.product((0.3, 0.95, 1.7), repeat=len(where)):
                segs = [[dict(zip(where, gaps)).get(i, 0), p] for i, p in enumerate(parts)]
                if ending != "silence":
                    segs.append([0.2, ending])
                ctx.trace()
                run([kind, segs], ctx)


def run_fault(case, ctx):
    """A transient read failure at one place, the stream continues."""
    kind, stream, fault = case
    b = un(stream)
    for at in range(len(b) + 1):
        for at2 in range(at, len(b) + 1):
            for d in (0, 0.5, 1.7):
                segs = [[0, hx(b[:at])], [d, fault], [0, hx(b[at:at2])], [0.1, fault], [d, hx(b[at2:])]]
                segs = [s for s in segs if s[1]]
                ctx.trace()
                run([kind, segs], ctx)


def run_values(case, ctx):
    """Every byte value around a terminator, several lines in one segment."""
    kind, a = case
    for c in range(256):
        s = bytes([a, c, 13, c, a, 13])
        ctx.trace()
        run([kind, [[0, hx(s)], [0, "eof"]]], ctx)


def run_long(case, ctx):
    """Lines of telegram length, fixed segment sizes, trickling within the time-out."""
    kind, length, size, delay, term = case
    b = bytes((i * 7 + 1) % 251 for i in range(length)).replace(b"\x0d", b"\x0e")
    b += b"\x0d" if term else b""
    segs = [[delay, hx(b[i:i + size])] for i in range(0, len(b), size)]
    w = World(reads_limit=400000)
    w.where = "recv"
    with installed(w):
        tr = transport(kind, T)
        tr.connect()
        script(w.links[-1], segs)
        judge(w, tr, arrivals(w.now, segs), ctx, "%s %s" % (kind, case[1:]), 3 + int(len(segs) * delay))
    ctx.outcome(str(case))


def run_timeouts(case, ctx):
    """Other time-outs than the usual one."""
    global T
    kind, tmo, n, pauses = case
    was = T
    try:
        for T in tmo:
            w = World(reads_limit=5000)
            w.where = "recv"
            tag = "%s %s" % (kind, case[1:])
            with installed(w):
                tr = transport(kind, T)
                tr.connect()
                segs = [[p, "%02x" % (0x61 + i)] for i, p in enumerate(pauses)] + [[0, "0d"], [0, "780d"]]
                script(w.links[-1], segs[:n])
                arr = arrivals(w.now, segs[:n])
                ctx.trace()
                judge(w, tr, arr, ctx, tag, len(arr) + 3)
                tr.disconnect()
        ctx.outcome(str(case))
    finally:
        T = was


def run_lines(case, ctx):
    """Very many lines on one link, every fourth with a pause, some empty."""
    kind, n, size = case
    b = b"".join(bytes(97 + (i + j) % 26 for j in range(i % 4)) + b"\x0d" for i in range(n))
    segs = [[0.3 if i % (4 * size) == 0 else 0, hx(b[i:i + size])] for i in range(0, len(b), size)]
    w = World(reads_limit=400000)
    w.where = "recv"
    with installed(w):
        tr = transport(kind, T)
        tr.connect()
        script(w.links[-1], segs)
        ctx.trace()
        t0, pos = w.now, 0
        for i in range(n):
            line = b[pos:b.index(b"\x0d", pos) + 1]
            d = tr.recv()
            if bytes(d) != line:
                fail("%s: line %d is delivered as %s, should be %s" % (kind, i, hx(d), hx(line)))
            pos += len(line)
        ctx.step(n)
        ctx.state(kind, case)
    ctx.outcome(str(case))


def run_reconnect(case, ctx):
    """What an earlier link had left over is not delivered on a new one."""
    kind, s1, take, s2, ending = case
    from elgas import exceptions
    w = World(reads_limit=5000)
    w.where = "recv"
    tag = "%s reconnect %s" % (kind, case[1:])
    with installed(w):
        tr = transport(kind, T)
        tr.connect()
        segs = [[0, s1]] + ([[0, ending]] if ending else [])
        script(w.links[-1], segs)
        for _ in range(take):
            try:
                tr.recv()
            except exceptions.CommunicationError:
                pass
        tr.disconnect()
        tr.connect()
        segs = [[0, s2], [0, "eof"]]
        script(w.links[-1], segs)
        arr = arrivals(w.now, segs)
        judge(w, tr, arr, ctx, tag, len(arr) + 3)
    ctx.outcome(str(case))


def run_unlimited(case, ctx):
    """Without a time-out every line comes, however long it takes, and then the end of the stream."""
    kind, stream, gap = case
    from elgas import exceptions
    b = un(stream)
    n = len(b)
    lines = [x + b"\x0d" for x in b.split(b"\x0d")[:-1]]
    for m in range(1 << max(0, n - 1)):
        cuts = [0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]
        w = World(reads_limit=5000)
        w.where = "recv without time-out"
        with installed(w):
            tr = transport(kind, None)
            tr.connect()
            script(w.links[-1], [[gap, hx(b[x:y])] for x, y in zip(cuts, cuts[1:])] + [[gap, "eof"]])
            for line in lines:
                d = tr.recv()
                if bytes(d) != line:
                    fail("%s %s: recv() gives %s, should be %s" % (kind, case[1:], hx(d), hx(line)))
                ctx.step()
            try:
                d = tr.recv()
            except exceptions.CommunicationError:
                pass
            else:
                fail("%s %s: recv() gives %s at the end of the stream" % (kind, case[1:], hx(d)))
        ctx.trace()
    ctx.state(kind, stream)
    ctx.outcome(str(case))


def run_until(case, ctx):
    """Another terminator than the usual one, and a limit on the size."""
    kind, stream, expected = case
    import inspect
    b, e = un(stream), un(expected)
    n = len(b)
    for m in range(1 << max(0, n - 1)):
        cuts = [0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]
        for size in (None, 1, 2, 3, 5):
            w = World(reads_limit=5000)
            w.where = "recv_until"
            with installed(w):
                tr = transport(kind, T)
                until = getattr(tr, "recv_until", None)
                if until is None or not {"expected", "size"} <= set(inspect.signature(until).parameters):
                    ctx.outcome("no such function")
                    return
                tr.connect()
                script(w.links[-1], [[0.1, hx(b[x:y])] for x, y in zip(cuts, cuts[1:])])
                pos = 0
                while True:
                    end = next((i for i in range(pos + 1, n + 1) if b[:i].endswith(e) and i - len(e) >= pos or i - pos == size), None)
                    if end is None:
                        break
                    d = until(expected=e, size=size)
                    if bytes(d) != b[pos:end]:
                        fail("%s %s size %s: recv_until() gives %s, should be %s" % (kind, case[1:], size, hx(d), hx(b[pos:end])))
                    pos = end
                    ctx.step()
            ctx.trace()
    ctx.state(kind, stream, expected)
    ctx.outcome(str(case))


# ------------------------------------------------------------- the same scripts against the real operating system

def real_tcp(segs, T):
    import socket
    import threading
    import time
    srv = socket.socket()
    srv.bind(("127.0.0.1", 0))
    srv.listen(1)

    def serve():
        c, _ = srv.accept()
        c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        go.wait(20)
        for item in segs:
            if item == "eof":
                c.close()
                return
            if item == "reset":
                import struct
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                c.close()
                return
            c.sendall(un(item))
            time.sleep(0.005)
        done.wait(20)
        c.close()

    done, go = threading.Event(), threading.Event()
    th = threading.Thread(target=serve, daemon=True)
    th.start()
    from elgas.transport import BlockingTcpTransport
    tr = BlockingTcpTransport(host="127.0.0.1", port=srv.getsockname()[1], timeout=T)

    def end():
        go.set()
        done.set()
        srv.close()
        th.join(20)
    return tr, go.set, end


def real_serial(segs, T):
    import os
    import pty
    import threading
    import time
    import tty
    master, slave = pty.openpty()
    tty.setraw(slave)
    from elgas.transport import SerialTransport
    tr = SerialTransport(port=os.ttyname(slave), baud_rate=9600, timeout=T)

    def serve():
        for item in segs:
            if item in ("eof", "reset"):
                break
            os.write(master, un(item))
            time.sleep(0.005)

    th = threading.Thread(target=serve, daemon=True)

    def end():
        if th.ident:
            th.join(20)
        os.close(master)
        os.close(slave)
    return tr, th.start, end


def run_real(case, ctx):
    """The results on the fake operating system are those on the real one."""
    kind, segs = case
    from elgas import exceptions
    last = segs[-1] if segs and segs[-1] in ("eof", "reset") else "silence"
    data = b"".join(un(s) for s in segs if s not in ("eof", "reset"))
    lines = data.count(b"\x0d")
    # how many results before the end; the reset may overtake data, so it is only used alone
    tmo = 0.4 if last == "silence" or kind == "serial" else 30
    results = []
    try:
        tr, start, end = (real_tcp if kind == "tcp" else real_serial)(segs, tmo)
    except OSError:
        ctx.outcome(kind, "not available here")
        return
    try:
        try:
            tr.connect()
        except exceptions.CommunicationError:
            ctx.outcome(kind, "not available here")
            return
        start()
        for _ in range(lines + 1):
            if len(results) == lines:
                tr.timeout = tmo
            try:
                results.append(hx(tr.recv()))
            except exceptions.CommunicationError:
                results.append("error")
        try:
            tr.disconnect()
        except exceptions.CommunicationError:
            pass
    finally:
        end()
    w = World()
    fake = []
    with installed(w):
        tr = transport(kind, tmo)
        tr.connect()
        script(w.links[-1], [[0.0005, s] for s in segs])
        for _ in range(lines + 1):
            try:
                fake.append(hx(tr.recv()))
            except exceptions.CommunicationError:
                fake.append("error")
    if fake != results and not (kind == "serial" or last == "silence"):
        fail("%s %s: real %s, fake %s" % (kind, segs, results, fake))
    # with a short time-out a loaded machine may run out of time; what came must still be in order
    got = "".join(r for r in results if r != "error")
    if (kind == "serial" or last == "silence") and not hx(data).startswith(got) and "error" not in results[:-1]:
        fail("%s %s: real %s" % (kind, segs, results))
    if results[-1] != "error" and last != "silence" and kind == "tcp":
        fail("%s %s: the end of the stream is not reported: %s" % (kind, segs, results))
    ctx.step(len(results))
    ctx.state(kind, str(segs))
    ctx.outcome(kind, str(results))


def letters(s):
    """Different letters, so that a position in the stream can be told from its content."""
    return hx(bytes(b if b == 13 else b + i for i, b in enumerate(s)))


def families(tier):
    q = tier == "quick"

    def block():
        for kind in ("tcp", "serial"):
            for n in range(0, (6 if q else 8)):
                for s in itertools.product((0x61, 0x0D), repeat=n):
                    for ending in ("silence", "eof", "reset"):
                        yield [kind, letters(s), ending, (2 if n <= 3 else 1) if q else (3 if n <= 4 else 2 if n <= 5 else 1)]

    def fault():
        for kind in ("tcp", "serial"):
            for n in range(0, 6 if q else 8):
                for s in itertools.product((0x61, 0x0D), repeat=n):
                    for f in ("reset", "oserror"):
                        yield [kind, letters(s), f]

    def values():
        for kind in ("tcp", "serial"):
            for a in range(256) if not q else list(range(0, 32)) + [0x1B, 0x7F, 0x80, 0x8D, 0xFF]:
                yield [kind, a]

    def long_():
        for kind in ("tcp", "serial"):
            for length in (0, 1, 5, 10, 64, 300) if q else (0, 1, 5, 10, 64, 300, 2100):
                for size in (1, 2, 7, 100, 5000):
                    for delay in (0, 0.01, 0.09, 0.3, 0.99):
                        for term in (True, False):
                            yield [kind, length, size, delay, term]

    def huge():
        for kind in ("tcp", "serial"):
            for length in (1023, 1024, 1025, 4096, 8193, 20000, 66000) if q else (1023, 1024, 1025, 2048, 4095, 4096, 4097, 8193, 20000, 66000, 140000):
                for size in (64, 1460, 100000):
                    for term in (True, False) if length < 1100 else (True,):
                        yield [kind, length, size, 0, term]

    def reconnect():
        for kind in ("tcp", "serial"):
            for n in range(0, 4):
                for s in itertools.product((0x61, 0x0D), repeat=n):
                    for take in range(0, 3):
                        for s2 in ("62", "620d", "0d", "0d620d"):
                            for ending in (None, "eof", "reset"):
                                yield [kind, hx(bytes(s)), take, s2, ending]

    def timeouts():
        for kind in ("tcp", "serial"):
            for tmo in ([0.5], [1], [2.5], [30], [31], [60], [100], [300], [3600], [10, 60, 1]):
                for pauses in itertools.product((0, 0.4, 0.97, 1.2), repeat=2 if q else 3):
                    for n in range(len(pauses) + 3):
                        yield [kind, tmo, n, list(pauses)]

    def lines():
        for kind in ("tcp", "serial"):
            for n in (300, 1100) if q else (300, 1100, 70000):
                for size in (1, 3, 64):
                    yield [kind, n, size]

    def real():
        for kind in ("tcp", "serial"):
            for segs in ([], ["610d"], ["61", "0d"], ["610d62", "0d0d"], ["61"], ["0d"], ["00ff1b8d11130d"], ["610d", "62"]):
                for ending in ("eof", "silence"):
                    if ending == "silence" or kind == "tcp":
                        yield [kind, segs + ([ending] if ending == "eof" else [])]
        yield ["tcp", ["reset"]]

    def unlimited():
        for kind in ("tcp", "serial"):
            for n in range(0, 7 if q else 10):
                for s in itertools.product((0x61, 0x0D), repeat=n):
                    for gap in (0, 0.5, 1000):
                        yield [kind, letters(s), gap]

    def until():
        for kind in ("tcp", "serial"):
            for n in range(1, 6 if q else 8):
                for s in itertools.product((0x61, 0x0D, 0x0A), repeat=n):
                    for e in ("0a", "0d0a", "0a0a", "0d610a"):
                        yield [kind, hx(bytes(s)), e]

    return [
        Family("block", block, run_block, "all streams over {a, CR} x all segmentations x pauses at up to two places x ending"),
        Family("fault", fault, run_fault, "two transient read failures at every pair of places"),
        Family("values", values, run_values, "every byte value before and after terminators"),
        Family("long", long_, run_long, "telegram-sized lines, fixed segments, constant pace"),
        Family("huge", huge, run_long, "lines beyond every telegram length"),
        Family("timeouts", timeouts, run_timeouts, "time-outs from half a second to an hour x pauses around them x cut anywhere"),
        Family("lines", lines, run_lines, "many lines on one link"),
        Family("reconnect", reconnect, run_reconnect, "left-over bytes of an earlier link"),
        Family("unlimited", unlimited, run_unlimited, "no time-out: all streams x all segmentations x pauses between the segments"),
        Family("until", until, run_until, "other terminators of one to three bytes x limits on the size x all streams x all segmentations"),
        Family("real", real, run_real, "conformance of the fake operating system with loopback TCP and pseudo terminals"),
    ]
