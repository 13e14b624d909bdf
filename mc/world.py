"""Virtual time, sockets and serial ports.  Everything the transports ask the operating system for is answered from a
script, so that every segmentation, delay and failure can be enumerated; nothing real is touched."""
import contextlib
import socket
import time

from mc.core import fail

TICK = 1e-6


class World:
    """One virtual machine: clock, links made so far, failures to inject."""

    def __init__(self, reads_limit=100000):
        self.now = 1000.0
        self.links = []
        self.fail_connect = []          # exceptions (or None) for successive connection attempts
        self.on_open = None             # called with every new link
        self.calls = 0
        self.reads_limit = reads_limit
        self.where = ""
        self.tried = []                 # where connections were attempted to
        self.fault = None               # [number of the call to fail (0 = the next one), exception]
        self.hit = None                 # name of the call that failed so

    def arm(self, n, e):
        self.fault, self.hit = [n, e], None

    def open_links(self):
        return [x for x in self.links if not x.closed]

    def tick(self, name=None):
        """One call to the operating system; calls with a name can fail."""
        self.calls += 1
        if self.calls > self.reads_limit:
            fail("%s: no end after %d calls to the operating system" % (self.where, self.calls))
        self.now += TICK
        if name and self.fault:
            if self.fault[0] == 0:
                e, self.fault, self.hit = self.fault[1], None, name
                raise e
            self.fault[0] -= 1

    def monotonic(self):
        self.now += TICK / 100
        return self.now

    def sleep(self, s):
        self.tick()
        self.now += max(0, s)

    def new_link(self, cls, *a, target=None):
        self.tick("connect")
        self.tried.append(target)
        e = self.fail_connect.pop(0) if self.fail_connect else None
        if e is not None:
            raise e
        link = cls(self, *a)
        link.target = target
        self.links.append(link)
        if self.on_open:
            self.on_open(link)
        return link


class Link:
    """Byte stream in both directions.  incoming: list of [time, item], item = bytes | 'eof' | exception.
    target: the address, or the settings of the serial port."""
    target = None

    def __init__(self, world, timeout=None):
        self.w, self.timeout = world, timeout
        self.incoming, self.sent = [], []
        self.closed = False
        self.shut = False
        self.fail_send, self.fail_shutdown, self.fail_close = [], [], []
        self.on_send = None
        self.used_after_close = 0

    def feed(self, item, delay=0.0):
        self.incoming.append([self.w.now + delay, item])

    def _alive(self):
        if self.closed:
            self.used_after_close += 1
            raise OSError(9, "Bad file descriptor")

    def other(self, name):
        """Anything else a link is asked for: it can fail, and does nothing."""
        self.w.tick(name)
        self._alive()

    def write(self, data):
        self._alive()
        self.w.tick("write")
        e = self.fail_send.pop(0) if self.fail_send else None
        if e is not None:
            raise e
        self.sent.append(bytes(data))
        if self.on_send:
            self.on_send(self, bytes(data))
        return len(data)

    def take(self, n, timeout):
        """(bytes | b'' for end of stream | None when the time ran out).  At most the rest of one segment."""
        self._alive()
        self.w.tick("read")
        if self.shut:
            return b""
        while True:
            if not self.incoming or (self.incoming[0][0] > self.w.now and timeout is not None
                                     and self.incoming[0][0] - self.w.now > timeout):
                if timeout is None:
                    fail("%s: waits for ever for data nobody sends" % self.w.where)
                self.w.now += timeout
                return None
            at, item = self.incoming[0]
            self.w.now = max(self.w.now, at)
            if isinstance(item, BaseException):
                self.incoming.pop(0)
                raise item
            if item == "eof":
                return b""
            if not item:
                self.incoming.pop(0)
                continue
            out, rest = item[:n], item[n:]
            if rest:
                self.incoming[0][1] = rest
                self.incoming[0][0] = self.w.now
            else:
                self.incoming.pop(0)
            return bytes(out)

    def available(self):
        n = 0
        for at, item in self.incoming:
            if at > self.w.now or not isinstance(item, bytes):
                break
            n += len(item)
        return n


class FakeSocket(Link):
    connected = True

    def connect(self, address):
        self._alive()
        self.w.tick("connect")
        self.w.tried.append(address)
        self.target = address
        e = self.w.fail_connect.pop(0) if self.w.fail_connect else None
        if e is not None:
            raise e
        self.connected = True
        if self.w.on_open:
            self.w.on_open(self)

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def setsockopt(self, *a):
        self.other("setsockopt")

    def getsockopt(self, *a):
        self.other("getsockopt")
        return 0

    def getpeername(self):
        self.other("getpeername")
        return "10.0.0.9", 8000

    def getsockname(self):
        self.other("getsockname")
        return "10.0.0.1", 40000

    def bind(self, address):
        self.other("bind")

    def ioctl(self, *a):
        self.other("ioctl")

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno or 110
        return 0

    def makefile(self, *a, **k):
        raise NotImplementedError("makefile is not modelled")

    def fileno(self):
        return -1 if self.closed else 99

    def sendall(self, data, flags=0):
        self.write(data)

    def send(self, data, flags=0):
        return self.write(data[:max(1, len(data) // 2)])      # the kernel takes what fits

    def recv(self, n, flags=0):
        peek = flags & socket.MSG_PEEK
        saved = [list(x) for x in self.incoming] if peek else None
        if self.timeout == 0 and not (self.incoming and self.incoming[0][0] <= self.w.now):
            self.w.tick()
            raise BlockingIOError(11, "Resource temporarily unavailable")
        b = self.take(n, self.timeout)
        if peek:
            self.incoming = saved
        if b is None:
            raise socket.timeout("timed out")
        return b

    def recv_into(self, buf, n=0, flags=0):
        b = self.recv(n or len(buf), flags)
        memoryview(buf)[:len(b)] = b
        return len(b)

    def shutdown(self, how):
        self._alive()
        self.w.tick("shutdown")
        e = self.fail_shutdown.pop(0) if self.fail_shutdown else None
        if e is not None:
            raise e
        self.shut = True

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.w.tick("close")
        e = self.fail_close.pop(0) if self.fail_close else None
        if e is not None:
            raise e

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeSerial(Link):
    drained = 0         # writes which have left the output buffer
    is_open = property(lambda self: not self.closed)
    in_waiting = property(lambda self: self.available())

    def inWaiting(self):
        return self.available()

    def read(self, size=1):
        """As pyserial: collects until size bytes are there or the time is over."""
        self.drained = len(self.sent)
        out = bytearray()
        end = None if self.timeout is None else self.w.now + self.timeout
        while len(out) < size:
            left = None if end is None else max(0.0, end - self.w.now)
            b = self.take(size - len(out), left)
            if b is None:
                break
            if not b:
                import serial
                raise serial.SerialException("device reports readiness to read but returned no data (device disconnected?)")
            out += b
        return bytes(out)

    def read_until(self, expected=b"\n", size=None):
        out = bytearray()
        end = None if self.timeout is None else self.w.now + self.timeout
        while True:
            b = self.read(1)
            if not b:
                break
            out += b
            if out.endswith(expected) or (size is not None and len(out) >= size) or (end is not None and self.w.now >= end):
                break
        return bytes(out)

    def flush(self):
        self.other("flush")
        self.drained = len(self.sent)

    def reset_input_buffer(self):
        self.other("reset_input_buffer")
        while self.incoming and self.incoming[0][0] <= self.w.now and isinstance(self.incoming[0][1], bytes):
            self.incoming.pop(0)

    def reset_output_buffer(self):
        self.other("reset_output_buffer")
        del self.sent[self.drained:]        # what is still in the buffer never gets onto the line

    def open(self):
        import serial
        if not self.closed:
            raise serial.SerialException("Port is already open.")
        self.w.tick("connect")
        self.w.tried.append(self.port)
        self.target = self.port
        e = self.w.fail_connect.pop(0) if self.w.fail_connect else None
        if e is not None:
            raise e
        self.closed = False
        if self.w.on_open:
            self.w.on_open(self)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.w.tick("close")
        e = self.fail_close.pop(0) if self.fail_close else None
        if e is not None:
            raise e


def import_all():
    """Every module of the code under test, so that none is first imported while the fake functions are in place."""
    import importlib
    import pkgutil
    import elgas
    for m in pkgutil.walk_packages(elgas.__path__, "elgas."):
        if not m.name.endswith("__main__"):
            importlib.import_module(m.name)


@contextlib.contextmanager
def installed(w):
    """Let the code under test see this world instead of the operating system."""
    import select
    import sys
    import serial
    import_all()
    real_select = select.select

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT, *a, **k):
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        return w.new_link(FakeSocket, timeout, target=address)

    def open_serial(port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None, xonxoff=False, *a, **k):
        if port is None:                # a port object that is opened later
            link = FakeSerial(w, timeout)
            link.closed = True
            w.links.append(link)
        else:
            link = w.new_link(FakeSerial, timeout, target=port)
        link.port, link.baudrate, link.bytesize, link.parity, link.stopbits, link.xonxoff = port, baudrate, bytesize, parity, stopbits, xonxoff
        link.flow = [k.get("rtscts"), k.get("dsrdtr")]
        return link

    def fake_select(r, wr, x, timeout=None):
        if not any(isinstance(o, Link) for o in [*r, *wr, *x]):
            return real_select(r, wr, x, timeout)
        w.tick()
        for o in [*r, *wr]:
            o._alive()
        if wr:
            return [o for o in r if o.incoming and o.incoming[0][0] <= w.now], list(wr), []
        at = min([o.incoming[0][0] for o in r if o.incoming], default=None)
        if at is None or (timeout is not None and at - w.now > timeout):
            if timeout is None:
                fail("%s: waits for ever for data nobody sends" % w.where)
            w.now += timeout
            return [], [], []
        w.now = max(w.now, at)
        return [o for o in r if o.incoming and o.incoming[0][0] <= w.now], [], []

    def make_socket(*a, **k):
        w.tick("socket")
        s = FakeSocket(w, socket.getdefaulttimeout())
        s.connected = False
        w.links.append(s)
        return s

    swaps = [(socket, "socket", make_socket), (socket, "create_connection", create_connection), (time, "monotonic", w.monotonic), (time, "time", w.monotonic),
             (time, "perf_counter", w.monotonic), (time, "sleep", w.sleep), (select, "select", fake_select), (serial, "Serial", open_serial)]
    real = {id(getattr(m, n)): f for m, n, f in swaps}
    # the same functions under the names the code imported them by
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "elgas" and m is not None:
            for n, v in list(vars(m).items()):
                if callable(v) and id(v) in real:
                    swaps.append((m, n, real[id(v)]))
    saved = [(m, n, getattr(m, n)) for m, n, _ in swaps]
    for m, n, f in swaps:
        setattr(m, n, f)
    try:
        yield w
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


class Bulk:
    """A transport of a user's own: receiving gives whatever has arrived, be it less or more than a line."""

    def __init__(self, inner):
        self.inner = inner
        self.connect, self.disconnect, self.send = inner.connect, inner.disconnect, inner.send

    def recv(self):
        from elgas import exceptions
        try:
            data = self.inner.tcp_socket.recv(65536)
        except OSError as e:
            raise exceptions.CommunicationError("Could not receive data") from e
        if not data:
            raise exceptions.CommunicationError("Connection closed by peer")
        return data


def transport(kind, timeout=10):
    from elgas import transport as t
    if kind == "bulk":
        return Bulk(transport("tcp", timeout))
    if kind == "tcp":
        return t.BlockingTcpTransport(host="10.0.0.9", port=8000, timeout=timeout)
    return t.SerialTransport(port="/dev/ttyNONE", baud_rate=9600, timeout=timeout)


def link_of(w):
    return w.links[-1]
