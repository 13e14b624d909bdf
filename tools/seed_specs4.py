"""Planted bugs, fourth round."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c24-refused-list", "C24", "a session that receives responses it refuses, again and again",
    "refused events are kept for diagnosis and never dropped",
    [("elgas/state.py", "    current_state: _SentinelBase = attr.ib(default=IDLE)\n",
      "    current_state: _SentinelBase = attr.ib(default=IDLE)\n    refused: list = attr.ib(factory=list, repr=False)\n"),
     ("elgas/state.py", "        except KeyError:\n            raise", "        except KeyError:\n            self.refused.append(event)\n            raise")], '''
import pickle
c = conn()
size = []
for n in range(400):
    c.receive_data(TIME)
    try:
        c.next_event()
    except exceptions.LocalElgasProtocolError:
        pass
    if n in (99, 399):
        size.append(len(repr(vars(c))) + sum(len(v) for v in vars(c.elgas_state).values() if hasattr(v, "__len__")))
assert size[1] - size[0] < 50, size
''')

bug("c24-time-cache", "C24", "a long row of different device times",
    "decoded times are remembered without limit",
    [("elgas/utils.py", "crc16_table = generate_crc16_table()\n", "crc16_table = generate_crc16_table()\nknown_bcd = {}\n"),
     ("elgas/utils.py", "    second = from_bcd(data[0:1])\n", "    known_bcd[bytes(data)] = second = from_bcd(data[0:1])\n")], '''
import gc
def containers():
    return sum(len(v) for v in vars(utils).values() if isinstance(v, (dict, list, set)))
utils.bytes_to_datetime(T)
a = containers()
for s in range(60):
    for m in range(60):
        utils.bytes_to_datetime(bytes.fromhex("%02d%02d05051123" % (s, m)))
assert containers() - a < 100, containers() - a
''')

bug("c14-total-cap", "C14", "a configuration of more than 65535 bytes in total",
    "a download ends when more than 64 KiB have come together, although the device has not said that it is the end",
    [("elgas/client.py", "            should_stop = response.is_end\n", "            should_stop = response.is_end or len(total_parameter_data) > 0xFFFF\n")], REC + '''
one = record(31, BIN)
for pages in (3, 30, 70, 80):
    per = 1000 // len(one)
    tr = Link(*[wire(S.READ_SCADA_PARAMETERS, (i * per).to_bytes(2, "little") + per.to_bytes(2, "little") + bytes([i == pages - 1]) + one * per)
                for i in range(pages)])
    c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
    c.connect()
    r = c.read_parameters()
    assert len(r) == pages * per, (pages, len(r))
''')

bug("c18-download-cache", "C18", "two downloads by one client whose first pages are alike",
    "a download whose first page is the one of the last time gives the list of the last time",
    [("elgas/client.py", "            total_parameter_data += response.data\n", """            if not total_parameter_data:
                if getattr(self, "_first_page", None) == (read_from, response):
                    if response.is_end or len(response.data) > 512:
                        return list(self._last_download)
                self._first_page = (read_from, response)
            total_parameter_data += response.data
"""), ("elgas/client.py", "        return parsed\n", "        self._last_download = parsed\n        return parsed\n")], REC + '''
one = record(31, BIN)
def pages(*p):
    return [wire(S.READ_SCADA_PARAMETERS, bytes([i, 0, len(x) // len(one), 0, i == len(p) - 1]) + x) for i, x in enumerate(p)]
for n in (1, 5, 20):
    a, b, d = one * n, record(31, BIN[:10] + b"A" + BIN[11:]), record(31, BIN[:10] + b"B" + BIN[11:])
    tr = Link(*pages(a, b), *pages(a, d))
    c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
    c.connect()
    x, y = c.read_parameters(), c.read_parameters()
    assert x[-1] != y[-1] and len(y) == n + 1, (n, x[-1], y[-1])
''')

bug("c16-timeout-cap", "C16", "a configured timeout of more than 60 s and a peer which sends for longer than a minute",
    "the overall time for receiving is capped at 60 s whatever the configured timeout",
    [("elgas/transport.py", "        self.duration = duration\n        if duration is not None:\n            self.target_time = time.monotonic() + duration\n",
      "        self.duration = duration\n        if duration is not None:\n            self.target_time = time.monotonic() + min(duration, 60)\n")], '''
class Clock:
    t = 0.0
    def __getattr__(self, n):
        return getattr(time_, n)
    def monotonic(self):
        return self.t
import time as time_
clock = transport.time = Clock()
class Port:
    def __init__(self, data, every):
        self.data, self.every = bytearray(data), every
    def read(self, n=1):
        clock.t += self.every
        d, self.data = bytes(self.data[:n]), self.data[n:]
        return d
for timeout, every in ((10, 0.1), (59, 1), (90, 2), (300, 7)):
    t = transport.SerialTransport(port="x", baud_rate=9600, timeout=timeout)
    t.serial_port = Port(b"A" * 38 + b"\\r", every)
    r = t.recv()
    assert r.endswith(b"\\r"), (timeout, r)
''')

bug("c16-leading-nul", "C16", "a peer whose line starts with a byte 00",
    "a NUL in front of a line is dropped by the TCP transport",
    [("elgas/transport.py", """            c = self._recv_bytes(1)
            if c:
                line += c
""", """            c = self._recv_bytes(1)
            if c == b"\\x00" and not line:
                continue
            if c:
                line += c
""")], '''
import socket
for cls in (transport.BlockingTcpTransport,):
    for d in (b"\\x00\\r", b"\\x00\\x00abc\\r", b"a\\x00\\r", b"\\x02\\r"):
        a, b = socket.socketpair()
        t = cls(host="x", port=1, timeout=2)
        t.tcp_socket = a
        b.sendall(d)
        r = t.recv()
        a.close(), b.close()
        assert r == d, (d, r)
''', count=2)

bug("c17-last-good", "C17", "connecting, disconnecting, and connecting again after the configured host was changed",
    "the address of the first connection is used for all further ones",
    [("elgas/transport.py", "    def address(self) -> Tuple[str, int]:\n        return self.host, self.port\n",
      """    def address(self) -> Tuple[str, int]:
        if self.tcp_socket:
            self._address = self.host, self.port
        return getattr(self, "_address", (self.host, self.port))
""")], '''
import socket
a, b = socket.create_server(("127.0.0.1", 0)), socket.create_server(("127.0.0.1", 0))
t = transport.BlockingTcpTransport(host="127.0.0.1", port=a.getsockname()[1], timeout=2)
for s in (a, b, a):
    s.settimeout(2)
    t.port = s.getsockname()[1]
    t.connect()
    s.accept()[0].close()
    try:
        t.disconnect()
    except exceptions.CommunicationError:
        pass
''')

bug("c15-dedup", "C15", "a configuration holding two equal objects",
    "objects which are equal are written only once",
    [("elgas/integration.py", "class UtilitarianConfigurationSchema(marshmallow.Schema):\n", """class UtilitarianConfigurationSchema(marshmallow.Schema):
    @marshmallow.post_dump
    def drop_repeated(self, data, **kwargs):
        objects = data.get("objects") or []
        data["objects"] = [o for i, o in enumerate(objects) if o not in objects[:i]]
        return data

""")], '''
from elgas.integration import *
for n in (0, 1, 2, 5):
    for same in (0, 1):
        c = UtilitarianConfiguration(objects=[UtilitarianConfigurationObject(parameter_type=27, data={"a": 0 if same else i}, series_name=None) for i in range(n)])
        d = UtilitarianConfigurationSchema().load(UtilitarianConfigurationSchema().dump(c))
        assert len(d["objects"]) == n, (n, same, d)
''')

bug("c03-empty-lrc", "C03", "a response without payload whose LRC is damaged",
    "the LRC of frames without payload is not compared",
    [("elgas/frames.py", "        if lrc != calculated_lrc:", "        if data and lrc != calculated_lrc:")], '''
for data in (b"", b"\\x00", b"abc"):
    for at in (-4, -3, -2):
        raw = bytearray(frames.Response(service=S.WRITE_DEVICE_TIME, destination_address_1=1, destination_address_2=2, source_address_1=3,
                                        source_address_2=4, data=data).to_bytes())
        frames.Response.from_bytes(bytes(raw))
        raw[at] ^= 0x40
        try:
            frames.Response.from_bytes(bytes(raw))
        except ValueError:
            continue
        raise SystemExit("damaged frame with %r accepted (%d)" % (data, at))
''', count=2)

bug("c22-recursion", "C22", "one telegram with about a thousand escape sequences",
    "unstuffing calls itself for every escape sequence",
    [("elgas/utils.py", "    in_data = bytearray(data)\n    out = bytearray()\n    while in_data:\n        byte = in_data.pop(0)\n", """    head, escape, tail = bytes(data).partition(b"\\x1b")
    if escape and tail:
        known = {0x0E: b"\\x0d", 0x1B: b"\\x1b", 0x0F: b"\\x8d"}
        return (
            head
            + known.get(tail[0], escape + tail[:1])
            + return_characters(tail[1:])
        )
    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)
""")], '''
for n in (1, 10, 300, 1500, 4000):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(b"\\x1b\\x0e" * n + b"\\x0d" + TIME)
    r = c.next_event()
    assert isinstance(r, application.ReadTimeResponse), (n, r)
''')

bug("c13-memo-crc", "C13", "two different records of one type whose CRCs agree",
    "decoded records are looked up by type, length and CRC",
    [("elgas/parser.py", """            object_list.append(
                elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
            )
""", """            key = (object_type, length, calculate_crc(data))
            if key not in known:
                known[key] = elgas.parameters.factory.ParameterFactory.from_bytes(
                    object_type, data
                )
            object_list.append(copy.copy(known[key]))
"""), ("elgas/parser.py", "        object_list = list()\n", "        object_list = list()\n        known = dict()\n"),
     ("elgas/parser.py", "from elgas.utils import pop_many\n", "from elgas.utils import calculate_crc, pop_many\n"),
     ("elgas/parser.py", "from typing import *\n", "import copy\nfrom typing import *\n")], REC + '''
for at in range(9, 28):
    # the CRC's own polynomial as a difference keeps the CRC
    for pattern in (0x14003, 0x18005, 0x1A001):
        for order in ("little", "big"):
            b = bytearray(BIN)
            for i, x in enumerate(pattern.to_bytes(3, order)):
                b[at + i] ^= x
            if utils.calculate_crc(b) == utils.calculate_crc(BIN):
                r = parser.ScadaParameterParser().parse(record(31, BIN) + record(31, bytes(b)))
                assert r[0] == ParameterFactory.from_bytes(P(31), bytearray(BIN)) and r[1] == ParameterFactory.from_bytes(P(31), bytearray(b)), (at, r)
''')

bug("c13-memo-sum", "C13", "two records of one type in a list with exchanged bytes",
    "decoded records are looked up by type and sum of bytes",
    [("elgas/parser.py", """            object_list.append(
                elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
            )
""", """            key = (object_type, length, sum(data))
            if key not in known:
                known[key] = elgas.parameters.factory.ParameterFactory.from_bytes(
                    object_type, data
                )
            object_list.append(copy.copy(known[key]))
"""), ("elgas/parser.py", "        object_list = list()\n", "        object_list = list()\n        known = dict()\n"),
     ("elgas/parser.py", "from typing import *\n", "import copy\nfrom typing import *\n")], REC + '''
a = BIN
b = bytes([BIN[2], BIN[1], BIN[0]]) + BIN[3:]
r = parser.ScadaParameterParser().parse(record(31, a) + record(31, b) + record(31, a))
assert r[0] == r[2] != r[1], r
''')

bug("c11-dst-evening", "C11", "a device time between 20:00 and 23:59 without summer time",
    "the summer time flag is taken from more than its own bit",
    [("elgas/utils.py", "    is_dst = bool(hour_data & 0b10000000)\n", "    is_dst = hour_data > 0b01011111\n")], '''
for h in range(24):
    for flags in (0, 0x40, 0x80, 0xC0):
        _, dst, support = utils.bytes_to_datetime(bytes([0, 0, int(str(h), 16) | flags, 5, 0x11, 0x23]))
        assert (dst, support) == (bool(flags & 0x80), bool(flags & 0x40)), (h, flags, dst, support)
''')


bug("c06-three-strikes", "C06", "five responses of other kinds while one is outstanding",
    "after five responses which do not fit, the outstanding request is given up",
    [("elgas/state.py", "    current_state: _SentinelBase = attr.ib(default=IDLE)\n",
      "    current_state: _SentinelBase = attr.ib(default=IDLE)\n    refused: int = attr.ib(default=0)\n"),
     ("elgas/state.py", "        except KeyError:\n            raise", """        except KeyError:
            self.refused += 1
            if self.refused == 5:
                self.current_state, self.refused = IDLE, 0
            raise""")], '''
for n in (1, 3, 5, 12):
    c = conn()
    c.send(application.WriteTimeRequest(password="abcdef", device_time=dt.datetime(2020, 1, 1), cryout=False))
    for _ in range(n):
        c.receive_data(TIME)
        try:
            c.next_event()
        except exceptions.LocalElgasProtocolError:
            continue
        raise SystemExit("a time for an answer to writing the time")
    try:
        c.send(application.ReadTimeRequest())
    except exceptions.LocalElgasProtocolError:
        pass
    else:
        raise SystemExit("a second request while one is outstanding (%d)" % n)
''')

bug("c19-send-log", "C19", "a send which fails",
    "the data which could not be sent are logged as a warning",
    [("elgas/transport.py", """        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise exceptions.CommunicationError("Could no send data") from e
""", """        except (OSError, IOError, socket.timeout, socket.error) as e:
            LOG.warning("Could not send data", data=data)
            raise exceptions.CommunicationError("Could no send data") from e
""")], '''
import contextlib, io, logging
import structlog
out = io.StringIO()
structlog.configure(wrapper_class=structlog.make_filtering_bound_logger(logging.INFO), logger_factory=structlog.PrintLoggerFactory(file=out))
import socket
a, b = socket.socketpair()
b.close()
t = transport.BlockingTcpTransport(host="x", port=1, timeout=1)
t.tcp_socket = a
c = client.ElgasClient(transport=t, password="s3cr3t", password_id=801)
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
    for _ in range(3):
        c.elgas_connection.reset()
        try:
            c.read_instantaneous_values()
        except exceptions.CommunicationError:
            pass
a.close()
assert "s3cr3t" not in out.getvalue(), out.getvalue()
''')

bug("c23-crc-alt-plain", "C23", "an encrypted response whose CRC was computed without length, key id and padding",
    "the CRC of the bare plain text is accepted as well",
    [("elgas/security.py", "        if not crc == correct_crc:\n", """        if correct_crc not in (
            crc,
            utils.calculate_crc(decrypted_data[:original_length]).to_bytes(2, "big"),
        ):
""")], '''
k = bytes(range(16))
ctx = security.CipherContext(key_id=security.EncryptionKeyId.ADMINISTRATOR, key=k)
for n in (0, 1, 9, 13, 14, 30):
    data = bytes(range(1, n + 1))
    pad = bytes((-(n + 2)) % 16)
    plain = data + pad + utils.calculate_crc(data).to_bytes(2, "big")
    sealed = n.to_bytes(2, "little") + bytes([int(ctx.key_id)]) + security.encrypt(plain, k, k)
    try:
        r = ctx.decrypt(sealed)
    except ValueError:
        continue
    raise SystemExit("accepted %r" % r)
''')

bug("c10-own-crc", "C10", "archive data whose last two bytes happen to be the CRC of what is in front of them",
    "a CRC at the end of archive data is cut off",
    [("elgas/application.py", "        oldest_record_id = int.from_bytes(in_bytes[1:5], \"little\")\n        data = in_bytes[5:]\n", """        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
        data = in_bytes[5:]
        crc = utils.calculate_crc(data[:-2]).to_bytes(2, "big")
        if len(data) > 2 and data.endswith(crc):
            data = data[:-2]
""")], '''
for n in (1, 2, 10, 50):
    d = bytes(range(n))
    d += utils.calculate_crc(d).to_bytes(2, "big")
    for x in (d, d[:-1] + bytes([d[-1] ^ 1])):
        r = application.ReadArchiveResponse.from_bytes(b"\\x01\\x05\\x00\\x00\\x00" + x)
        assert bytes(r.data) == x, (x, r.data)
''', count=2)

bug("c04-drc-esc", "C04", "a response whose DRC or payload ends in an escape, received in two chunks of which the second is the terminator",
    "a terminator which comes alone behind an escape byte is dropped",
    [("elgas/connection.py", "            self.buffer += data\n            LOG.debug(\n", """            if data[:1] == b"\\x0d" and self.buffer[-1:] == b"\\x1b":
                data = data[1:]
            self.buffer += data
            LOG.debug(
""")], '''
n = 0
for x in range(65536):
    p = bytes.fromhex("094217051123") + b"\\x00" + x.to_bytes(2, "little")
    w = wire(S.READ_DEVICE_TIME, p)
    if w[-2] != 0x1B:
        continue
    n += 1
    for cut in (1, 2, 5):
        c = conn()
        c.send(application.ReadTimeRequest())
        c.receive_data(w[:-cut])
        c.receive_data(w[-cut:])
        r = c.next_event()
        assert isinstance(r, application.ReadTimeResponse), (p, cut, r)
    if n > 5:
        break
assert n
''')

bug("c07-same-error", "C07", "the same device error seven times in a row",
    "an error repeated for the seventh time is not raised any more",
    [("elgas/connection.py", "    error = data[0]\n", """    error = data[0]
    raise_error.row = raise_error.row + 1 if raise_error.last == error else 0
    raise_error.last = error
    if raise_error.row == 6:
        return
"""), ("elgas/connection.py", "        raise exceptions.WriteError()\n", "        raise exceptions.WriteError()\n\n\nraise_error.last, raise_error.row = None, 0\n")], '''
for n in range(30):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(wire(S.READ_DEVICE_TIME, b"\\x04"))
    try:
        r = c.next_event()
    except exceptions.SwitchOff:
        continue
    raise SystemExit("time %d: %r" % (n, r))
''')

bug("c21-alias", "C21", "one bytearray handed to two sessions, the first of them receiving more",
    "the first chunk becomes the receive buffer itself instead of being copied",
    [("elgas/connection.py", "            self.buffer += data\n            LOG.debug(\n", """            if self.buffer:
                self.buffer += data
            else:
                self.buffer = data if isinstance(data, bytearray) else bytearray(data)
            LOG.debug(
""")], '''
shared = bytearray(TIME[:10])
a, b = conn(), conn()
for c in (a, b):
    c.send(application.ReadTimeRequest())
    c.receive_data(shared)
a.receive_data(TIME[10:])
b.receive_data(TIME[10:])
for c in (a, b):
    r = c.next_event()
    assert isinstance(r, application.ReadTimeResponse), r
assert bytes(shared) == TIME[:10]
''')

bug("c09-pw-strip", "C09", "a password with a blank at its end, used by way of the client",
    "blanks around the password are removed in the client and filled up with zero characters in the request",
    [("elgas/client.py", "    password: str = attr.ib(converter=utils.to_secret_str)\n",
      "    password: str = attr.ib(converter=lambda p: utils.to_secret_str(p.strip().rjust(6)))\n")], '''
for pw in ("abcdef", " bcdef", "abcde ", "abc   ", "      ", "a    f"):
    tr = Link()
    c = client.ElgasClient(transport=tr, password=pw, password_id=801)
    c.connect()
    try:
        c.read_instantaneous_values()
    except exceptions.CommunicationError:
        pass
    p = utils.return_characters(tr.sent[0])
    assert p.find(pw.encode()) > 0, (pw, p)
''')

bug("c18-access-refused", "C18", "a device which reports an access result other than 0 together with its time",
    "the time is withheld when the data access result is not zero",
    [("elgas/client.py", "        return response.time\n", """        if response.data_access_result not in (b"", b"\\x00"):
            raise exceptions.DataError()
        return response.time
""")], '''
for access in range(256):
    tr = Link(wire(S.READ_DEVICE_TIME, bytes.fromhex("094217051123") + bytes([access]) + b"\\x11\\x22"))
    c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
    c.connect()
    assert c.read_time() == dt.datetime(2023, 11, 5, 17, 42, 9), access
''')

