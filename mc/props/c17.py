"""C17 transport lifecycle survives failures at any step."""
import itertools
import socket

from mc.core import Family, fail
from mc.world import FakeSocket, World, installed, transport

PROP, LEVEL = "C17", "fault_enumeration"
RULE = ("a case is a sequence of transport operations with failures of the operating system placed at chosen underlying calls; after every "
        "operation the exception, the bytes on the link and the open links are compared with a reference automaton; a state is "
        "(transport, connected, operation, failure, result)")
ASSUMPTIONS = ["after a failed send or receive the transport may keep the link or drop it; either way at most one link is open",
               "operating system failures are OSError and its subclasses (socket.timeout, gaierror, refused, reset, ...) and pyserial's SerialException"]

PAYLOADS = [b"\x02\xfe\x86hello\x0d", b"\x0d", bytes(range(256)) * 9]


def exc(kind, name):
    import serial
    return {
        "refused": lambda: ConnectionRefusedError(111, "Connection refused"),
        "timeout": lambda: socket.timeout("timed out"),
        "dns": lambda: socket.gaierror(-2, "Name or service not known"),
        "unreach": lambda: OSError(113, "No route to host"),
        "reset": lambda: ConnectionResetError(104, "Connection reset by peer"),
        "pipe": lambda: BrokenPipeError(32, "Broken pipe"),
        "notconn": lambda: OSError(107, "Transport endpoint is not connected"),
        "io": lambda: OSError(5, "Input/output error"),
        "nofile": lambda: FileNotFoundError(2, "could not open port"),
        "perm": lambda: PermissionError(13, "could not open port"),
        "serial": lambda: serial.SerialException("device reports readiness to read but returned no data"),
        "sertime": lambda: serial.SerialTimeoutException("Write timeout"),
    }[name]()


FAULTS = {
    "tcp": {"connect": ["refused", "timeout", "dns", "unreach", "reset"], "send": ["pipe", "timeout", "reset", "io"],
            "recv": ["reset", "timeout", "io", "eof", "silence"], "disconnect": ["shutdown-notconn", "shutdown-io", "close-io", "both"]},
    "serial": {"connect": ["serial", "nofile", "perm", "io"], "send": ["serial", "sertime", "io"],
               "recv": ["serial", "io", "silence"], "disconnect": ["close-serial", "close-io"]},
}
OPS = ("connect", "disconnect", "send", "recv")


def run(case, ctx):
    kind, seq = case
    from elgas import exceptions
    w = World(reads_limit=20000)
    w.where = "%s %s" % (kind, seq)
    sent = {}
    with installed(w):
        tr = transport(kind, 10.0)
        connected = False
        seq = [tuple(x) for x in seq]
        for i, (op, fault) in enumerate(seq + [("disconnect", None), ("disconnect", None), ("connect", None), ("send", None), ("recv", None),
                                               ("disconnect", None)]):
            what = "%s %s step %d (%s%s)" % (kind, seq, i, op, " failing with " + fault if fault else "")
            before = (len(w.links), w.calls)
            link = w.open_links()[-1] if w.open_links() else None
            mark = len(link.sent) if link else 0
            data = PAYLOADS[i % len(PAYLOADS)]
            w.fail_connect[:] = []
            if op == "connect":
                if fault:
                    w.fail_connect[:] = [exc(kind, fault)]
            elif link is not None:
                link.fail_send[:], link.fail_shutdown[:], link.fail_close[:], link.incoming[:] = [], [], [], []
                if op == "send" and fault:
                    link.fail_send[:] = [exc(kind, fault)]
                elif op == "recv":
                    if fault == "silence":
                        pass
                    elif fault == "eof":
                        link.feed("eof")
                    elif fault:
                        link.feed(exc(kind, fault))
                    else:
                        link.feed(b"abc\x0d")
                elif op == "disconnect" and fault:
                    at, _, name = fault.partition("-")
                    if at in ("shutdown", "both"):
                        link.fail_shutdown[:] = [exc(kind, name or "notconn")]
                    if at in ("close", "both"):
                        link.fail_close[:] = [exc(kind, name or "io")]
            raised, value = None, None
            try:
                if op == "connect":
                    tr.connect()
                elif op == "disconnect":
                    tr.disconnect()
                elif op == "send":
                    tr.send(data)
                else:
                    value = tr.recv()
            except Exception as e:
                raised = e
            ctx.step(w.calls - before[1])
            ctx.state(kind, connected, op, fault, type(raised).__name__)
            opened = len(w.links) - before[0]
            lib = isinstance(raised, exceptions.CommunicationError)

            if op == "connect" and connected:
                if raised is None:
                    fail("%s: connecting twice is not refused" % what)
                if opened or link.closed or w.open_links() != [link]:
                    fail("%s: the open link was disturbed" % what)
            elif op == "connect" and fault:
                if not lib:
                    fail("%s: gives %r instead of a communication error" % (what, raised))
                if w.open_links():
                    fail("%s: a link is left open" % what)
            elif op == "connect":
                if raised is not None:
                    fail("%s: %r" % (what, raised))
                if len(w.open_links()) != 1:
                    fail("%s: %d links open" % (what, len(w.open_links())))
                if isinstance(w.open_links()[0], FakeSocket) and not w.open_links()[0].connected:
                    fail("%s: the socket was never connected" % what)
                connected = True
            elif op == "disconnect":
                if connected and fault and not (fault.startswith("shutdown") and link.fail_shutdown):
                    if not lib:
                        fail("%s: gives %r instead of a communication error" % (what, raised))
                elif raised is not None:
                    fail("%s: %r" % (what, raised))
                if w.open_links():
                    fail("%s: the link was not released" % what)
                if opened:
                    fail("%s: opened a link" % what)
                if not connected and w.calls != before[1]:
                    fail("%s: touched the operating system while not connected" % what)
                connected = False
            elif not connected:
                if raised is None:
                    fail("%s: not refused while not connected (%r)" % (what, value))
                if opened or w.calls != before[1]:
                    fail("%s: touched the operating system while not connected" % what)
            else:
                if fault:
                    if not lib:
                        fail("%s: gives %r %r instead of a communication error" % (what, raised, value))
                elif raised is not None:
                    fail("%s: %r" % (what, raised))
                elif op == "send" and b"".join(link.sent[mark:]) != data:
                    fail("%s: put %d bytes on the link instead of %d" % (what, sum(map(len, link.sent[mark:])), len(data)))
                elif op == "recv" and bytes(value) != b"abc\x0d":
                    fail("%s: received %r" % (what, value))
                if op == "recv" and len(link.sent) != mark:
                    fail("%s: receiving sent something" % what)
                if opened:
                    fail("%s: opened another link" % what)
                connected = len(w.open_links()) == 1
                if not fault and not connected:
                    fail("%s: the link was closed" % what)
            if len(w.open_links()) > 1:
                fail("%s: %d links are open" % (what, len(w.open_links())))
            for x in w.links:
                if x.used_after_close:
                    fail("%s: a closed link was used" % what)
    ctx.outcome(kind, str(seq))


def sequences(kind, n, nf, ops=OPS):
    for seq in itertools.product(ops, repeat=n):
        for k in range(nf + 1):
            for where in itertools.combinations(range(n), k):
                for fs in itertools.product(*[FAULTS[kind][seq[i]] for i in where]):
                    d = dict(zip(where, fs))
                    yield [kind, [[op, d.get(i)] for i, op in enumerate(seq)]]


def run_client(case, ctx):
    """The same through ElgasClient.connect / disconnect."""
    kind, seq = case
    from elgas import exceptions
    from mc.props.c04 import client
    w = World()
    w.where = str(case)
    with installed(w):
        cl = client(transport(kind, 10.0), False)
        connected = False
        for i, (op, fault) in enumerate(list(map(tuple, seq)) + [("disconnect", None), ("connect", None), ("disconnect", None)]):
            what = "client %s step %d (%s failing with %s)" % (case, i, op, fault)
            link = w.open_links()[-1] if w.open_links() else None
            w.fail_connect[:] = [exc(kind, fault)] if fault and op == "connect" else []
            if link and op == "disconnect" and fault:
                name = fault.partition("-")[2]
                if fault.startswith("close"):
                    link.fail_close[:] = [exc(kind, name)]
                else:
                    link.fail_shutdown[:] = [exc(kind, name or "notconn")]
            raised = None
            try:
                getattr(cl, op)()
            except Exception as e:
                raised = e
            ctx.step()
            ctx.state("client", kind, connected, op, fault, type(raised).__name__)
            if op == "connect" and connected:
                if raised is None or w.open_links() != [link]:
                    fail("%s: connecting twice gives %r" % (what, raised))
            elif fault and (connected or op == "connect"):
                if not isinstance(raised, exceptions.CommunicationError) and not (link and link.fail_shutdown):
                    fail("%s: %r" % (what, raised))
                connected = False
            elif raised is not None:
                fail("%s: %r" % (what, raised))
            else:
                connected = op == "connect"
            if len(w.open_links()) != int(connected):
                fail("%s: %d links open" % (what, len(w.open_links())))
    ctx.outcome(str(case))


SHAPES = {"tcp": ["refused", "timeout", "reset", "pipe", "io", "notconn"], "serial": ["serial", "io", "perm"]}


def run_call(case, ctx):
    """An operation after a history, with the n-th call to the operating system it makes failing, for every n until it makes no more."""
    kind, before, op, name = case
    from elgas import exceptions
    n = 0
    while True:
        what = "%s after %s: %s with call %d to the operating system failing (%s)" % (kind, before, op, n, name)
        w = World(reads_limit=20000)
        w.where = what
        ctx.trace()
        with installed(w):
            tr = transport(kind, 10.0)
            for b in before:
                if b == "recv":
                    w.links[-1].feed(b"x\x0d")
                getattr(tr, b)(*([PAYLOADS[0]] if b == "send" else []))
            connected = len(w.open_links()) == 1
            link = w.open_links()[-1] if connected else None
            mark = len(link.sent) if link else 0
            if op == "recv":
                link.feed(b"ab\x0d")
            w.arm(n, exc(kind, name))
            raised, value = None, None
            try:
                value = getattr(tr, op)(*([PAYLOADS[2]] if op == "send" else []))
            except Exception as e:
                raised = e
            w.fault = None
            ctx.step()
            ctx.state(kind, tuple(before), op, name, w.hit, type(raised).__name__)
            hit = w.hit
            if raised is not None and not isinstance(raised, exceptions.CommunicationError):
                fail("%s (%s): %r instead of a communication error" % (what, hit, raised))
            if raised is not None and hit is None:
                fail("%s: %r although nothing failed" % (what, raised))
            if raised is None and hit in ("connect", "close", "shutdown", "write", "read"):
                fail("%s (%s): not reported (%r)" % (what, hit, value))
            if op == "connect" and raised is not None and w.open_links():
                fail("%s (%s): a link is left open" % (what, hit))
            if op == "connect" and raised is None and len(w.open_links()) != 1:
                fail("%s (%s): %d links open" % (what, hit, len(w.open_links())))
            if op == "disconnect" and w.open_links():
                fail("%s (%s): the link was not released" % (what, hit))
            if op == "send" and raised is None and b"".join(link.sent[mark:]) != PAYLOADS[2]:
                fail("%s (%s): only part was sent" % (what, hit))
            if op == "recv" and raised is None and bytes(value) != b"ab\x0d":
                fail("%s (%s): received %r" % (what, hit, value))
            if len(w.open_links()) > 1:
                fail("%s (%s): %d links open" % (what, hit, len(w.open_links())))
            # the transport is usable again
            if not (op == "connect" and raised is not None):
                tr.disconnect()
            if w.open_links():
                fail("%s (%s): a link stays open after disconnecting" % (what, hit))
            tr.connect()
            link = w.open_links()[-1]
            tr.send(PAYLOADS[0])
            link.feed(b"q\x0d")
            if b"".join(link.sent) != PAYLOADS[0] or bytes(tr.recv()) != b"q\x0d":
                fail("%s (%s): unusable after connecting again" % (what, hit))
            tr.disconnect()
            if w.open_links():
                fail("%s (%s): a link leaked" % (what, hit))
            if any(x.used_after_close for x in w.links):
                fail("%s (%s): a closed link was used" % (what, hit))
        if hit is None:
            break
        n += 1
        if n > 200:
            fail("%s: makes calls without end" % what)
    ctx.outcome(str(case))


def run_payload(case, ctx):
    """What is sent arrives completely and in order: sizes, contents, several sends in a row."""
    kind, sizes, fill = case
    w = World(reads_limit=10 ** 6)
    w.where = str(case)
    with installed(w):
        tr = transport(kind, 10.0)
        tr.connect()
        link, all_ = w.links[-1], b""
        for i, n in enumerate(sizes):
            data = bytes((fill + i) & 255 for i in range(n)) if fill >= 0 else bytes([-fill]) * n
            tr.send(data)
            all_ += data
            ctx.step()
            got = b"".join(link.sent)
            if got != all_:
                fail("%s transport: after sends of %s bytes %d of %d bytes are on the link%s" % (
                    kind, sizes[:i + 1], len(got), len(all_), "" if len(got) != len(all_) else ", but not the same ones"))
        ctx.state(kind, str(sizes), fill)
        tr.disconnect()
    ctx.trace()
    ctx.outcome(str(case))


def run_cycles(case, ctx):
    """Very many cycles of connecting, using and disconnecting, with something failing in each."""
    kind, n, fault = case
    from elgas import exceptions
    w = World(reads_limit=10 ** 7)
    w.where = str(case)
    with installed(w):
        tr = transport(kind, 10.0)
        for i in range(n):
            w.links.clear()
            what = "%s transport, cycle %d with %s" % (kind, i, fault)
            name = FAULTS[kind]["connect"][i % len(FAULTS[kind]["connect"])]
            if fault == "connect":
                w.fail_connect[:] = [exc(kind, name)]
                try:
                    tr.connect()
                except exceptions.CommunicationError:
                    pass
                else:
                    fail("%s: a failed connect is not reported" % what)
            tr.connect()
            if len(w.open_links()) != 1:
                fail("%s: %d links open after connecting" % (what, len(w.open_links())))
            link = w.links[-1]
            if fault == "twice":
                try:
                    tr.connect()
                except RuntimeError:
                    pass
                except exceptions.ElgasError:
                    pass
                else:
                    fail("%s: connecting twice is not refused" % what)
            if fault == "send":
                link.fail_send[:] = [exc(kind, FAULTS[kind]["send"][i % len(FAULTS[kind]["send"])])]
            try:
                tr.send(b"%d\x0d" % i)
                if fault == "send" or b"".join(link.sent) != b"%d\x0d" % i:
                    fail("%s: sent %r" % (what, link.sent))
            except exceptions.CommunicationError:
                if fault != "send":
                    raise
            if fault == "close":
                link.fail_close[:] = [exc(kind, FAULTS[kind]["disconnect"][-1].partition("-")[2] or "io")]
            try:
                tr.disconnect()
                if fault == "close":
                    fail("%s: a failed disconnect is not reported" % what)
            except exceptions.CommunicationError:
                if fault != "close":
                    raise
            if w.open_links():
                fail("%s: the link was not released" % what)
            ctx.step(4)
        ctx.state(kind, fault, n)
    ctx.trace()
    ctx.outcome(str(case))


def run_where(case, ctx):
    """Every connection goes to the configured place, also after failures and reconnects; nothing else is ever tried."""
    kind, place, speed, seq = case
    from elgas import transport as t
    w = World()
    w.where = str(case)
    with installed(w):
        tr = t.BlockingTcpTransport(host=place, port=speed, timeout=5) if kind == "tcp" else t.SerialTransport(port=place, baud_rate=speed, timeout=5)
        for i, fault in enumerate(seq):
            what = "%s transport to %s %s, connection %d of %s" % (kind, place, speed, i, seq)
            w.fail_connect[:] = [exc(kind, fault)] if fault else []
            w.tried.clear()
            try:
                tr.connect()
            except Exception:
                if not fault:
                    raise
            for x in w.tried:
                if (tuple(x)[:2] if kind == "tcp" else x) != ((place, speed) if kind == "tcp" else place):
                    fail("%s: tries %r" % (what, x))
            if not fault:
                link = w.open_links()[-1]
                if kind == "tcp" and tuple(link.target)[:2] != (place, speed):
                    fail("%s: is connected to %r" % (what, link.target))
                if kind == "serial" and (link.target, link.baudrate) != (place, speed):
                    fail("%s: opened %r with %r baud" % (what, link.target, link.baudrate))
                if kind == "serial" and (link.bytesize != 8 or link.xonxoff):
                    fail("%s: the port cannot carry all byte values (%r bits, xonxoff %r)" % (what, link.bytesize, link.xonxoff))
                tr.disconnect()
            ctx.step()
        ctx.state(kind, place, speed, str(seq))
    ctx.trace()
    ctx.outcome(str(case))


def run_moved(case, ctx):
    """Two transports side by side whose configuration is changed between connections."""
    kind, seq = case
    from elgas import transport as t
    hosts = ("10.0.0.9", "10.0.0.10", "meter") if kind == "tcp" else ("/dev/ttyNONE", "/dev/ttyNOTE", "COM3")
    speeds = (8000, 8001, 4001) if kind == "tcp" else (9600, 19200, 300)
    w = World()
    w.where = str(case)
    with installed(w):
        def make(h, s):
            return t.BlockingTcpTransport(host=h, port=s, timeout=5) if kind == "tcp" else t.SerialTransport(port=h, baud_rate=s, timeout=5)
        conf = [[0, 0], [1, 0]]
        trs = [make(hosts[h], speeds[s]) for h, s in conf]
        for i, (who, attribute, value) in enumerate(seq):
            what = "%s step %d" % (case, i)
            conf[who][attribute] = value
            setattr(trs[who], ("host", "port") [attribute] if kind == "tcp" else ("port", "baud_rate")[attribute], (hosts, speeds)[attribute][value])
            for k in (0, 1):
                del w.tried[:]
                trs[k].connect()
                link = w.open_links()[-1]
                want = (hosts[conf[k][0]], speeds[conf[k][1]])
                got = tuple(link.target)[:2] if kind == "tcp" else (link.target, link.baudrate)
                if got != want or len(w.tried) != 1:
                    fail("%s: transport %d should connect to %r, connects to %r (%r)" % (what, k, want, got, w.tried))
                ctx.step()
                if (i + k) % 2:
                    trs[k].send(b"x\r")
                trs[k].disconnect()
        ctx.state(kind, str(conf))
    ctx.trace()
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def moved():
        moves = list(itertools.product((0, 1), (0, 1), (0, 1, 2)))
        for kind in ("tcp", "serial"):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                for seq in itertools.product(moves, repeat=n):
                    yield [kind, seq]

    def where():
        for n in (1, 2, 3):
            for kind in ("tcp", "serial"):
                for seq in itertools.product([None] + FAULTS[kind]["connect"], repeat=n):
                    if kind == "tcp":
                        for host in ("10.0.0.9", "meter-7.example.org", "::1", "localhost", ""):
                            for port in (1, 80, 8000, 8001, 44000, 65535) + ((0,) if n == 1 else ()):
                                yield [kind, host, port, seq]
                    else:
                        for port in ("/dev/ttyNONE", "/dev/serial/by-id/x", "COM11", "loop://"):
                            for baud in (300, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200):
                                yield [kind, port, baud, seq]

    def payloads():
        for kind in ("tcp", "serial"):
            for n in list(range(0, 70)) + [255, 256, 257, 1023, 1024, 1025, 1460, 4095, 4096, 4097, 8192, 8193, 65535, 65536, 65537, 200000, 1100000]:
                yield [kind, [n], 0]
                yield [kind, [n, 3, n, 0, 1], 7]
            for v in range(256):
                yield [kind, [1], -v if v else 0]
                yield [kind, [3, 3], -v if v else 0]

    def cycles():
        for kind in ("tcp", "serial"):
            for fault in (None, "connect", "twice", "send", "close"):
                for n in (40, 300) if q else (40, 300, 1100, 5000):
                    yield [kind, n, fault]

    def calls():
        for kind in ("tcp", "serial"):
            for before in ([], ["connect", "disconnect"], ["connect", "send", "recv", "disconnect"], ["connect", "disconnect", "connect", "disconnect"]):
                for name in SHAPES[kind]:
                    yield [kind, before, "connect", name]
                    for more in ([], ["send"], ["send", "recv"], ["send", "recv"] * 3):
                        for op in ("disconnect", "send", "recv"):
                            yield [kind, before + ["connect"] + more, op, name]

    def seqs():
        for kind in ("tcp", "serial"):
            for n in range(1, 5 if q else 6):
                yield from sequences(kind, n, 2)
            if not q:
                yield from sequences(kind, 6, 1)
                yield from sequences(kind, 7, 1, ("connect", "disconnect", "send"))

    def clients():
        for kind in ("tcp", "serial"):
            for n in range(1, 5 if q else 6):
                yield from sequences(kind, n, 2, ("connect", "disconnect"))

    return [
        Family("calls", calls, run_call, "an operation after a history x every call it makes to the operating system failing"),
        Family("sequences", seqs, run, "operation sequences up to length 4 (thorough 5, 6 and 7 with fewer failures) x up to two failures"),
        Family("payloads", payloads, run_payload, "sends of all sizes up to 1.1 MB, all byte values"),
        Family("cycles", cycles, run_cycles, "up to 300 (thorough 5000) cycles with a failure in each"),
        Family("moved", moved, run_moved, "up to three (thorough four) changes of address, port or speed of two transports between connections"),
        Family("where", where, run_where, "addresses, ports and speeds x up to three connects with failures"),
        Family("client", clients, run_client, "connect/disconnect sequences through the client"),
    ]
