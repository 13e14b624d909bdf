"""Planted bugs, seventh round: what the clocks, other objects and what a value carries besides its meaning may change."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []
U, F, C, T, S, A, P, SEC, CL = ("elgas/" + x + ".py" for x in ("utils", "frames", "connection", "transport", "state", "application", "parser", "security", "client"))

# a virtual clock and a scripted link for the demonstrations
W = '''
import time as _t
NOW = [1000.0]


def _now():
    NOW[0] += 1e-6
    return NOW[0]


_t.monotonic = _t.time = _t.perf_counter = _now
'''


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c04-stale-part", "C04", "a pause of more than five seconds between two chunks of one response",
    "the first part of a response is thrown away when the next chunk comes more than five seconds later",
    [(C, "            self.buffer += data\n", '''            import time

            now = time.monotonic()
            stale = now - self.__dict__.get("_last", now) > 5
            self._last = now
            self.buffer = bytearray(data) if stale else self.buffer + data
''')], W + '''
f = frames.Response(service=S.READ_DEVICE_TIME, destination_address_1=0, destination_address_2=0, source_address_1=1, source_address_2=2, data=utils.datetime_to_bytes(dt.datetime(2023, 1, 2)) + bytes(5))
w = utils.escape_characters(f.to_bytes())
for gap in (0, 60):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(w[:10])
    assert c.next_event() is state.NEED_DATA
    NOW[0] += gap
    c.receive_data(w[10:])
    assert c.next_event() == application.ReadTimeResponse.from_bytes(f.data), gap
''')

bug("c06-expired-request", "C06", "a second request a minute or more after one that is still outstanding",
    "an outstanding request is forgotten after a minute and the next one is sent in spite of it",
    [(C, '''        LOG.debug("Sending request PDU", pdu=event)
''', '''        import time

        if time.monotonic() - self.__dict__.get("_sent", 1e18) > 60:
            self.elgas_state.current_state = state.IDLE
        self._sent = time.monotonic()
        LOG.debug("Sending request PDU", pdu=event, at=self._sent)
''')], W + '''
for wait in (1, 3600):
    c = conn()
    c.send(application.ReadTimeRequest())
    NOW[0] += wait
    try:
        c.send(application.ReadTimeRequest())
    except exceptions.LocalElgasProtocolError:
        continue
    raise SystemExit("a second request leaves after %d s" % wait)
''')

bug("c11-fold", "C11", "a time object in the second pass of a repeated hour (fold=1)",
    "a time in the repeated hour of a clock change is written one hour late",
    [(U, "    out.extend(to_bdc(timestamp.hour))\n", "    out.extend(to_bdc((timestamp.hour + timestamp.fold) % 24))\n")], '''
for fold in (0, 1):
    t = dt.datetime(2023, 10, 29, 2, 30, 1, fold=fold)
    assert utils.datetime_to_bytes(t).hex() == "013002291023", fold
''')

bug("c11-aware", "C11", "a time object with a time zone other than UTC",
    "a time with a time zone is written as UTC",
    [(U, '''    out = bytearray()
    out.extend(to_bdc(timestamp.second))
''', '''    offset = timestamp.utcoffset()
    if offset is not None:
        timestamp = timestamp - offset
    out = bytearray(to_bdc(timestamp.second))
''')], '''
for z in (None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=2))):
    t = dt.datetime(2023, 10, 29, 12, 30, 1, tzinfo=z)
    assert utils.datetime_to_bytes(t).hex() == "013012291023", z
''')

bug("c21-shared-line", "C21", "two transports receiving at the same time in two threads",
    "all transports collect the line they are receiving in one and the same buffer",
    [(T, "        line = bytearray()\n        timeout = Timeout(self.timeout)\n", "        line = LINE\n        line.clear()\n        timeout = Timeout(self.timeout)\n"),
     (T, 'LOG = structlog.get_logger("transport")\n', 'LOG = structlog.get_logger("transport")\nLINE = bytearray()\n')], '''
import socket, threading, time
srv = socket.create_server(("127.0.0.1", 0))
from elgas.transport import BlockingTcpTransport
trs, ends = [], []
for i in range(2):
    t = BlockingTcpTransport("127.0.0.1", srv.getsockname()[1], timeout=10)
    t.connect()
    trs.append(t)
    ends.append(srv.accept()[0])
got = [None, None]


def run(i):
    got[i] = trs[i].recv()


ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(2)]
ends[0].sendall(b"abc")
ts[0].start()
time.sleep(0.5)
ts[1].start()
ends[1].sendall(b"12345\\x0d")
time.sleep(0.5)
ends[0].sendall(b"def\\x0d")
for t in ts:
    t.join(10)
assert got == [b"abcdef\\x0d", b"12345\\x0d"], got
''', counts={0: 2})

bug("c21-parser-list", "C21", "the list of an earlier parse looked at after a second one with the same parser object",
    "a parser hands out the same list object every time",
    [(P, "        object_list = list()\n", '        object_list = self.__dict__.setdefault("objects", list())\n        object_list.clear()\n')], REC + '''
from elgas.parser import ScadaParameterParser
p = ScadaParameterParser()
raws = []
for body in (TIMER,):
    for t in range(256):
        try:
            raws.append((record(t, body), ScadaParameterParser().parse(record(t, body))))
        except Exception:
            pass
for body in (BIN,):
    for t in range(256):
        try:
            raws.append((record(t, body), ScadaParameterParser().parse(record(t, body))))
        except Exception:
            pass
assert raws
one = p.parse(raws[0][0])
two = p.parse(raws[0][0] + raws[0][0])
assert len(one) == 1 and len(two) == 2, (len(one), len(two))
''')

bug("c16-silence-part", "C16", "a device that falls silent after the first sixteen bytes of a line, on TCP",
    "when nothing more comes within the time-out, the first part of a line is handed over as if it were whole",
    [(T, """            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s""", """            try:
                c = self._recv_bytes(1)
            except socket.timeout:
                c = b""
                if len(line) < 16:
                    raise
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s""")], W + """
import socket
from elgas.transport import BlockingTcpTransport


class Sock:
    def __init__(self, data):
        self.data = data

    def recv(self, n):
        if not self.data:
            raise socket.timeout("timed out")
        out, self.data = self.data[:n], self.data[n:]
        return out


for n in (3, 40):
    t = BlockingTcpTransport("h", 1, timeout=10)
    t.tcp_socket = Sock(b"x" * n)
    try:
        got = t.recv()
    except exceptions.CommunicationError:
        continue
    raise SystemExit("a part of a line is handed over: %r" % got)
""")

bug("c18-idle", "C18", "a pause of more than five minutes between two operations of a connected client",
    "after a pause the rest of the session is thrown away together with the first answer after it",
    [(CL, '''            response_data = self.transport.recv()
            self.elgas_connection.receive_data(response_data)
''', '''            response_data = self.transport.recv()
            import time

            late = time.monotonic() - self.__dict__.get("_used", 1e18) > 300
            self._used = time.monotonic()
            self.elgas_connection.receive_data(response_data[: -1 if late else None])
''')], W + '''
from elgas.client import ElgasClient
f = frames.Response(service=S.READ_DEVICE_TIME, destination_address_1=0, destination_address_2=0, source_address_1=1, source_address_2=2, data=utils.datetime_to_bytes(dt.datetime(2023, 1, 2)) + bytes(5))
w = utils.escape_characters(f.to_bytes())


class Tr:
    n = 0

    def connect(self):
        pass

    disconnect = connect

    def send(self, data):
        self.n = 1

    def recv(self):
        if not self.n:
            raise exceptions.CommunicationError("nothing there")
        self.n = 0
        return w


c = ElgasClient(transport=Tr(), password="secpw7", password_id=810)
c.connect()
for gap in (0, 10, 4000, 1):
    NOW[0] += gap
    assert c.read_time() == dt.datetime(2023, 1, 2), gap
''')

bug("c02-learned-address", "C02", "a response from a definite address to a session that asks all devices",
    "a session that asks address 0 goes on asking the address the last response came from",
    [(C, '''            LOG.debug("Received ELGAS response", response=response)

''', '''            if not self.destination_address_2:
                self.destination_address_2 = response.source_address_2
            LOG.debug("Received ELGAS response", response=response, to=self.destination_address_2)

''')], '''
c = conn()
dst = (c.destination_address_1, c.destination_address_2)
f = frames.Response(service=S.READ_DEVICE_TIME, destination_address_1=0, destination_address_2=0, source_address_1=513, source_address_2=42, data=utils.datetime_to_bytes(dt.datetime(2023, 1, 2)) + bytes(5))
first = c.send(application.ReadTimeRequest())
c.receive_data(utils.escape_characters(f.to_bytes()))
c.next_event()
assert c.send(application.ReadTimeRequest()) == first
''')

bug("c14-resume", "C14", "a second download on the same client after one that stopped halfway",
    "a download that starts from the beginning after an interrupted one starts where that one stopped",
    [(CL, '''        total_parameter_data = b""
        object_count = read_from
        while not should_stop:
''', '''        total_parameter_data = b""
        object_count = read_from or self.__dict__.pop("_next", 0)
        while not should_stop:
            self._next = object_count
'''), (CL, '''        LOG.debug("Received total parameters data", data=total_parameter_data)
''', '''        self._next = 0
        LOG.debug("Received total parameters data", data=total_parameter_data)
''')], '''
from elgas.client import ElgasClient


def wire(data):
    f = frames.Response(service=S.READ_SCADA_PARAMETERS, destination_address_1=0, destination_address_2=0, source_address_1=1, source_address_2=2, data=data)
    return utils.escape_characters(f.to_bytes())


class Tr:
    fail = None
    sent = 0

    def connect(self):
        pass

    disconnect = connect

    def send(self, data):
        self.last = frames.Request.from_bytes(utils.return_characters(data)).data
        self.sent += 1

    def recv(self):
        if self.fail == self.sent:
            raise exceptions.CommunicationError("gone")
        i = self.last[10]
        return wire(bytes([i, 0, 1, 0, i == 2]) + b"\\x05\\x00\\x30\\x01" + bytes([i]))


class T2(Tr):
    asked = ()

    def send(self, data):
        Tr.send(self, data)
        self.asked += (self.last[10],)


t = T2()
c = ElgasClient(transport=t, password="secpw7", password_id=810)
c.connect()
t.fail = 2
try:
    c.read_parameters()
except exceptions.ElgasError:
    pass
t.fail, t.asked = None, ()
c.disconnect()
c.connect()
try:
    c.read_parameters()
except exceptions.ElgasError:
    pass
assert t.asked[:3] == (0, 1, 2), t.asked
''')
