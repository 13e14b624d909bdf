"""Planted bugs, C12 to C23."""
import pathlib
import runpy

_one = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs1.py"))) if "__file__" in globals() else None
H = _one["H"]
SPECS = []


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


REC = '''
import attr
from elgas.parameters.enumerations import ParameterObjectType as P
from elgas.parameters.factory import ParameterFactory, ParameterSchemaFactory


def record(t, body):
    return (len(body) + 3).to_bytes(2, "little") + bytes([t]) + body


BIN = bytes.fromhex("0100020003000400050003") + b"Alarm\\x00".ljust(23, b" ")[:23] + bytes.fromhex("010002000300")
TIMER = bytes.fromhex("01000200030004001f") + b"Timer".ljust(23, b"\\x00") + bytes.fromhex("05000600")
DIAG = None
'''

bug("c12-optional-zero", "C12", "a binary input record with the optional tail, whose action byte is 0",
    "the optional tail of a binary input is taken as absent when its first byte is zero, and the record is refused or the texts are lost",
    [("elgas/parameters/binary.py", """        if data:
            action_during_change = data.pop(0)
            text_log_0 = pretty_text(pop_many(data, 13))
            text_log_1 = pretty_text(pop_many(data, 13))
        else:
            action_during_change = None
            text_log_0 = None
            text_log_1 = None

        assert not data
""", """        if any(data):
            action_during_change = data.pop(0)
            text_log_0 = pretty_text(pop_many(data, 13))
            text_log_1 = pretty_text(pop_many(data, 13))
        else:
            action_during_change = None
            text_log_0 = None
            text_log_1 = None
""")], REC + '''
o = ParameterFactory.from_bytes(P.BINARY, BIN)
assert (o.action_during_change, o.text_log_0) == (None, None), o
o = ParameterFactory.from_bytes(P.BINARY, BIN + b"\\x01" + b"on".ljust(13, b"\\0") + b"off".ljust(13, b"\\0"))
assert (o.action_during_change, o.text_log_0, o.text_log_1) == (1, "on", "off"), o
o = ParameterFactory.from_bytes(P.BINARY, BIN + bytes(27))
assert (o.action_during_change, o.text_log_0, o.text_log_1) == (0, "", ""), o
''')

bug("c12-switch-function", "C12", "the system parameters with both bits of the switch function set",
    "the switch function of the system parameters keeps only its lower bit",
    [("elgas/parameters/system_parameters.py", "int((data_access & 0b00110000) >> 4)", "int(bool(data_access & 0b00110000))")],
    REC + '''
body = bytearray(300)
import itertools
for n in range(100, 400):
    try:
        ParameterFactory.from_bytes(P.SYSTEM_PARAMETER, bytes(n))
        break
    except Exception:
        pass
for v in range(4):
    b = bytearray(n)
    b[29] = v << 4
    assert ParameterFactory.from_bytes(P.SYSTEM_PARAMETER, bytes(b)).switch_function == v, v
''')

bug("c13-trailing", "C13", "a parameter list cut off one or two bytes into a record",
    "one or two left-over bytes at the end of a parameter list are ignored",
    [("elgas/parser.py", "        while working_data:\n", "        while len(working_data) > 2:\n")], REC + '''
data = record(P.TIMER, TIMER) + record(P.BINARY, BIN)
assert len(parser.ScadaParameterParser().parse(data)) == 2
for n in range(1, len(data)):
    if n == len(record(P.TIMER, TIMER)):
        continue
    try:
        r = parser.ScadaParameterParser().parse(data[:n])
    except Exception:
        continue
    raise SystemExit("%d bytes give %d objects" % (n, len(r)))
''')

bug("c13-skip-unknown", "C13", "an object type the library does not know between known ones",
    "records of unknown object types are silently skipped",
    [("elgas/parser.py", """            object_type = elgas.parameters.enumerations.ParameterObjectType(
                working_data.pop(0)
            )
""", """            type_code = working_data.pop(0)
            if type_code not in list(elgas.parameters.enumerations.ParameterObjectType):
                # introduced by a newer firmware
                working_data = working_data[max(length, 3) - 3 :]
                continue
            object_type = elgas.parameters.enumerations.ParameterObjectType(type_code)
""")], REC + '''
data = record(P.TIMER, TIMER) + record(250, b"abc") + record(P.BINARY, BIN)
try:
    r = parser.ScadaParameterParser().parse(data)
except Exception:
    pass
else:
    raise SystemExit("%d objects" % len(r))
''')

bug("c14-empty-page", "C14", "a page without objects which is not the last one",
    "downloading stops at the first page without objects, even when it is not flagged as last",
    [("elgas/client.py", "            should_stop = response.is_end\n", "            should_stop = response.is_end or not response.object_amount\n")], REC + '''
def page(amount, end, body):
    return wire(S.READ_SCADA_PARAMETERS, b"\\x00\\x00" + amount.to_bytes(2, "little") + bytes([end]) + body)


a, b = record(P.TIMER, TIMER), record(P.BINARY, BIN)
cl = client.ElgasClient(transport=Link(page(1, 0, a), page(0, 0, b""), page(1, 1, b)), password="abcdef", password_id=801)
assert len(cl.read_parameters()) == 2
''')

bug("c14-index-byte", "C14", "downloading from an index of 256 or more, or more than 255 objects",
    "after the first page the object index is kept in one byte",
    [("elgas/client.py", "            object_count += response.object_amount\n",
      "            object_count = (object_count & 0xFF00) | ((object_count + response.object_amount) & 0xFF)\n")], REC + '''
def page(amount, end, body):
    return wire(S.READ_SCADA_PARAMETERS, b"\\x00\\x00" + amount.to_bytes(2, "little") + bytes([end]) + body)


a = record(P.TIMER, TIMER)
for start in (0, 5, 254, 255, 256, 511):
    link = Link(page(2, 0, a * 2), page(1, 1, a))
    cl = client.ElgasClient(transport=link, password="abcdef", password_id=801)
    assert len(cl.read_parameters(start)) == 3
    w = utils.return_characters(link.sent[1])
    assert int.from_bytes(w[22:24], "little") == start + 2, (start, w.hex())
''')

bug("c15-int-flags", "C15", "a set point whose limit is a float with more than six significant digits",
    "floats of a set point are exported with only six decimals",
    [("elgas/parameters/setpoint.py", "    value_of_limit = marshmallow.fields.Float(required=True, as_string=True)\n",
      "    value_of_limit = marshmallow.fields.Decimal(places=6, required=True, as_string=True)\n"),
     ("elgas/parameters/setpoint.py", "        return SetPoint(**data)\n",
      "        data[\"value_of_limit\"] = float(data[\"value_of_limit\"])\n        return SetPoint(**data)\n")], REC + '''
import json, struct
body = bytes.fromhex("0100020003000400050003") + b"Limit".ljust(23, b"\\x00")
for v in (0.0, 1.5, -3.25, 1e-9, 1.17549435e-38, 3.0e38, 12345.678):
    o = ParameterFactory.from_bytes(P.SET_POINT, body + struct.pack("<f", v) + b"\\x01\\x02")
    s = ParameterSchemaFactory.by_parameter_id(P.SET_POINT)()
    assert s.load(json.loads(json.dumps(s.dump(o)))) == o, v
''')

bug("c15-empty-is-none", "C15", "a modem whose SIM number text is empty",
    "an empty owner SIM number comes back as absent",
    [("elgas/parameters/modem.py", "    owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)\n",
      "    owner_sim_number = marshmallow.fields.Function(\n        lambda o: o.owner_sim_number or None, deserialize=lambda v: v\n    )\n")], REC + '''
import json
n = 7 + 32 + 32 + 8 + 80 + 3 + 8 + 2 + 4 + 32 + 49 + 33 + 4 + 2 + 8 + 9 + 17
for sim in (b"", b"123456"):
    o = ParameterFactory.from_bytes(P.MODEM, bytes(n - 17) + sim.ljust(17, b"\\x00"))
    s = ParameterSchemaFactory.by_parameter_id(P.MODEM)()
    assert s.load(json.loads(json.dumps(s.dump(o)))) == o, sim
''')

bug("c16-trickle", "C16", "a peer that keeps sending single bytes without ever sending a terminator, each within the socket timeout",
    "the overall timeout of receiving is restarted by every byte, so a trickling peer keeps it going for ever",
    [("elgas/transport.py", """            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""", """            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
            if self.timeout:
                timeout.restart(self.timeout)
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""")], '''
import socket, threading, time
a = socket.create_server(("127.0.0.1", 0))
end = threading.Event()


def peer():
    s, _ = a.accept()
    for _ in range(40):
        if end.wait(0.2):
            break
        try:
            s.sendall(b"A")
        except OSError:
            break
    s.close()


threading.Thread(target=peer, daemon=True).start()
t = transport.BlockingTcpTransport(host="127.0.0.1", port=a.getsockname()[1], timeout=1)
t.connect()
t0 = time.monotonic()
try:
    t.recv()
except exceptions.CommunicationError:
    pass
end.set()
d = time.monotonic() - t0
t.disconnect()
assert d < 4, d
''')

bug("c16-block-read", "C16", "two telegrams arriving in the same TCP segment",
    "the TCP transport reads whole blocks and drops what follows the terminator in the block",
    [("elgas/transport.py", """            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""", """            c = self._recv_bytes(1)
            if c and expected == b"\\x0d" and size is None and c != expected:
                block = self.tcp_socket.recv(64)
                line += c + block
                if expected in block:
                    del line[line.index(expected) + 1 :]
                    break
            elif c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""")], '''
import socket
a = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=a.getsockname()[1], timeout=1)
t.connect()
s, _ = a.accept()
s.sendall(b"one\\x0dtwo\\x0d")
assert t.recv() == b"one\\x0d"
try:
    r = t.recv()
except exceptions.CommunicationError as e:
    raise SystemExit("the second line is lost: %r" % e)
assert r == b"two\\x0d", r
t.disconnect()
s.close()
''')

bug("c17-serial-leftover", "C17", "the serial port failing to close, then connecting again",
    "a serial port that failed to close stays set, so the transport can not be connected again",
    [("elgas/transport.py", """            except (OSError, IOError, serial.SerialException) as e:
                self.serial_port = None
                raise exceptions.CommunicationError from e
            self.serial_port = None
""", """            except (OSError, IOError, serial.SerialException) as e:
                raise exceptions.CommunicationError from e
            self.serial_port = None
""")], '''
import serial


class Port:
    def __init__(self, *a, **k):
        pass

    def close(self):
        raise OSError("gone")


serial.Serial = Port
t = transport.SerialTransport(port="x", baud_rate=9600)
t.connect()
try:
    t.disconnect()
except exceptions.CommunicationError:
    pass
t.connect()
''')

bug("c17-partial-send", "C17", "the operating system accepting only part of the data in one call",
    "what the operating system does not accept in one call is not sent",
    [("elgas/transport.py", "            self.tcp_socket.sendall(data)\n", "            self.tcp_socket.send(data)\n")], '''
import socket, threading
a = socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=a.getsockname()[1], timeout=20)
t.connect()
s, _ = a.accept()
t.tcp_socket.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096)
t.tcp_socket.settimeout(20)
N = 8000000
th = threading.Thread(target=t.send, args=(bytes(N),), daemon=True)
th.start()
import time
time.sleep(0.5)
got = 0
s.settimeout(3)
try:
    while got < N:
        d = s.recv(65536)
        if not d:
            break
        got += len(d)
except socket.timeout:
    pass
assert got == N, got
''')

bug("c17-connect-leak", "C17", "setting up the socket failing after the connection was made",
    "a socket whose options can not be set stays open and set after the failed connect",
    [("elgas/transport.py", """                address=self.address, timeout=self.timeout
            )
""", """                address=self.address, timeout=self.timeout
            )
            self.tcp_socket.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
""")], '''
import socket
made = []


class Sock:
    closed = False

    def setsockopt(self, *a):
        if len(made) == 1:
            raise OSError("reset by peer")

    def settimeout(self, t):
        pass

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


def create(address=None, timeout=None, *a, **k):
    made.append(Sock())
    return made[-1]


socket.create_connection = create
t = transport.BlockingTcpTransport(host="h", port=1)
try:
    t.connect()
except exceptions.CommunicationError:
    assert made[0].closed
    t.connect()
t.disconnect()
''')

bug("c18-give-up", "C18", "more than three stray terminators in front of the answer",
    "a client operation gives up silently and returns nothing after three lines without an answer",
    [("elgas/client.py", """        while True:
            event = self.elgas_connection.next_event()
            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
            return event
""", """        for _ in range(4):
            event = self.elgas_connection.next_event()
            if event is state.NEED_DATA:
                self.elgas_connection.receive_data(self.transport.recv())
                continue
            return event
""")], '''
for n in range(8):
    cl = client.ElgasClient(transport=Link(*[b"\\x0d"] * n, TIME), password="abcdef", password_id=801)
    assert cl.read_time() == dt.datetime(2023, 11, 5, 17, 42, 9), n
''')

bug("c18-partial-download", "C18", "the link failing in the middle of a parameter download",
    "a parameter download returns what it has when the link fails after the first page",
    [("elgas/client.py", """            self.send(request)
            response: application.ReadDeviceParametersResponse = self.next_event()
""", """            try:
                self.send(request)
                response: application.ReadDeviceParametersResponse = self.next_event()
            except exceptions.CommunicationError:
                if not total_parameter_data:
                    raise
                LOG.warning("Lost the link while downloading parameters")
                break
""")],
    REC + '''
a = record(P.TIMER, TIMER)
cl = client.ElgasClient(transport=Link(wire(S.READ_SCADA_PARAMETERS, b"\\x00\\x00\\x01\\x00\\x00" + a)), password="abcdef", password_id=801)
try:
    r = cl.read_parameters()
except exceptions.CommunicationError:
    pass
else:
    raise SystemExit("%d objects" % len(r))
''')

bug("c19-plain-copy", "C19", "the representation of a client with a password (any state)",
    "the connection of a client gets an unprotected copy of the password, which shows up in its representation",
    [("elgas/client.py", "                password=self.password,\n                password_id", "                password=str(self.password),\n                password_id")], '''
cl = client.ElgasClient(transport=Link(), password="s3cr3t", password_id=801, encryption_key=b"K" * 16, encryption_key_id=2)
assert "s3cr3t" not in repr(cl) and "KKKK" not in repr(cl)
''')

bug("c19-debug-plaintext", "C19", "logging at debug level with encryption configured",
    "the unencrypted request is written to the debug log although encryption is configured",
    [("elgas/connection.py", """        application_data = event.to_bytes()

        if self.cipher_context:
""", """        application_data = event.to_bytes()
        LOG.debug("Encoded request PDU", data=application_data)

        if self.cipher_context:
""")], '''
import structlog
seen = []


def grab(logger, name, event):
    seen.append(repr(event))
    raise structlog.DropEvent


structlog.configure(processors=[grab])
cl = client.ElgasClient(transport=Link(), password="s3cr3t", password_id=801, encryption_key=b"K" * 16, encryption_key_id=2)
try:
    cl.read_instantaneous_values()
except exceptions.ElgasError:
    pass
assert seen and not [s for s in seen if "s3cr3t" in s], [s for s in seen if "s3cr3t" in s]
''')

bug("c20-localtime", "C20", "a local time zone other than UTC",
    "the last reset time of a call-in message is converted through the local time zone",
    [("elgas/application.py", """        last_reset_time = base_date + timedelta(
            seconds=int.from_bytes(utils.pop_many(data, 4), "little")
        )
""", """        last_reset_time = datetime.fromtimestamp(
            946684800 + int.from_bytes(utils.pop_many(data, 4), "little")
        )
""")], '''
import os, time
os.environ["TZ"] = "Europe/Prague"
time.tzset()
n = 2 + 1 + 16 + 17 + 10 + 8 + 1 + 2 + 1 + 1 + 4 * 11 + 1 + 4 + 33
body = bytearray(n)
body[0:2] = n.to_bytes(2, "little")
body[54] = [p.value for p in constants.Protocol][0]
for i in range(0, 8):
    body[75 + i] = 0
o = application.CallRequest.from_bytes(bytes(body))
assert o.last_reset_time == dt.datetime(2000, 1, 1), o.last_reset_time
''')

bug("c20-signed-counter", "C20", "a data counter of 2 GiB or more",
    "the counter of all transferred data is read as a signed number",
    [("elgas/application.py", """        all_data = int.from_bytes(utils.pop_many(data, 4), "little")
""", """        all_data = int.from_bytes(utils.pop_many(data, 4), "little", signed=True)
""")], '''
n = 2 + 1 + 16 + 17 + 10 + 8 + 1 + 2 + 1 + 1 + 4 * 11 + 1 + 4 + 33
body = bytearray(n)
body[54] = [p.value for p in constants.Protocol][0]
p = 59 + 7 * 4
for v in (0, 5, 2 ** 31, 2 ** 32 - 1):
    body[p:p + 4] = v.to_bytes(4, "little")
    o = application.CallRequest.from_bytes(bytes(body))
    assert o.all_data == v, (v, o)
''')

bug("c21-shared-state", "C21", "two connections which are in the middle of an exchange at the same time",
    "all connections share one and the same state object",
    [("elgas/connection.py", "    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)\n",
      "    elgas_state: state.ElgasState = attr.ib(default=state.ElgasState())\n")], '''
a, b = conn(), conn()
a.send(application.ReadTimeRequest())
b.send(application.ReadTimeRequest())
for c in (a, b):
    c.receive_data(TIME)
    r = c.next_event()
    assert isinstance(r, application.ReadTimeResponse), r
''')

bug("c21-shared-crc", "C21", "two threads calculating a CRC at the same time",
    "the CRC is accumulated in a module variable shared by all threads",
    [("elgas/utils.py", """def calculate_crc(data: bytearray):
    crc = 0xFFFF
    for a in data:
        idx = crc16_table[(crc ^ a) & 0xFF]
        crc = ((crc >> 8) & 0xFF) ^ idx
    result = ((crc << 8) & 0xFF00) | ((crc >> 8) & 0x00FF)
    return result
""", """_crc = 0xFFFF


def calculate_crc(data: bytearray):
    global _crc
    _crc = 0xFFFF
    for a in data:
        idx = crc16_table[(_crc ^ a) & 0xFF]
        _crc = ((_crc >> 8) & 0xFF) ^ idx
    result = ((_crc << 8) & 0xFF00) | ((_crc >> 8) & 0x00FF)
    return result
""")], '''
import sys, threading
sys.setswitchinterval(1e-6)
data = bytearray(range(256)) * 4
want = utils.calculate_crc(data)
wrong = []


def work():
    for _ in range(300):
        if utils.calculate_crc(bytearray(data)) != want:
            wrong.append(1)


ts = [threading.Thread(target=work) for _ in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not wrong, len(wrong)
''')

bug("c22-archive-lookup", "C22", "an archive response naming an archive number the library does not know",
    "an unknown archive number makes polling raise a KeyError instead of a library error",
    [("elgas/application.py", """        archive = constants.Archive(in_bytes[0])
""", """        archive = constants.Archive._value2member_map_[in_bytes[0]]
""")], '''
for n in range(256):
    c = conn()
    c.send(application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(1), amount=1, oldest_record_id=1))
    c.receive_data(wire(S.READ_ARCHIVES, bytes([n]) + b"\\x01\\x00\\x00\\x00abc"))
    try:
        c.next_event()
    except exceptions.ElgasError:
        pass
''', count=2)

bug("c22-escape-end", "C22", "a telegram with an incomplete escape sequence right before its terminator",
    "an escape byte right before the terminator raises an error which is no library error",
    [("elgas/utils.py", """            else:
                out.append(byte)
                out.append(next_byte)
        else:
            out.append(byte)

    return bytes(out)
""", """            elif next_byte == 0x0D:
                raise EOFError("Data ends within an escape sequence")
            else:
                out.append(byte)
                out.append(next_byte)
        else:
            out.append(byte)

    return bytes(out)
""")], '''
c = conn()
c.send(application.ReadTimeRequest())
c.receive_data(b"\\x02\\xfe\\x86\\x1b\\x0d")
try:
    assert c.next_event() is state.NEED_DATA
except exceptions.ElgasError:
    pass
''')

bug("c23-crc-byte", "C23", "an altered encrypted response whose inner CRC differs only in its second byte",
    "only the first byte of the CRC of an encrypted response is compared",
    [("elgas/security.py", "        if not crc == correct_crc:\n", "        if not crc[:1] == correct_crc[:1]:\n")], '''
ctx = security.CipherContext(security.EncryptionKeyId(2), b"k" * 16)
p = bytes.fromhex("094217051123") + b"\\x00\\x11\\x22" + bytes(5)
sealed = ctx.encrypt(p)
plain = bytearray(security.decrypt(sealed[3:], b"k" * 16, b"k" * 16))
plain[-1] ^= 0x55
bad = sealed[:3] + security.encrypt(bytes(plain), b"k" * 16, b"k" * 16)
c = conn(encryption_key=b"k" * 16, encryption_key_id=2)
c.send(application.ReadTimeRequest())
c.receive_data(wire(S.READ_DEVICE_TIME, bad, frames.EncryptedResponse))
try:
    r = c.next_event()
except exceptions.ElgasError:
    r = state.NEED_DATA
assert r is state.NEED_DATA, r
''')

bug("c23-crc-without-padding", "C23", "an altered padding byte of an encrypted response",
    "a response is also accepted when its CRC fits without looking at the key id",
    [("elgas/security.py", "        if not crc == correct_crc:\n", """        header_free = utils.calculate_crc(for_crc[3:]).to_bytes(2, "big")
        if correct_crc not in (crc, header_free):
""")], '''
K = b"k" * 16
p = bytes.fromhex("094217051123") + b"\\x00\\x11\\x22" + bytes(5)
body = p
bad = len(p).to_bytes(2, "little") + b"\\x02" + security.encrypt(body + utils.calculate_crc(bytearray(body)).to_bytes(2, "big"), K, K)
c = conn(encryption_key=K, encryption_key_id=2)
c.send(application.ReadTimeRequest())
c.receive_data(wire(S.READ_DEVICE_TIME, bad, frames.EncryptedResponse))
try:
    r = c.next_event()
except exceptions.ElgasError:
    r = state.NEED_DATA
assert r is state.NEED_DATA, r
''')
