"""Planted bugs, fifth round."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []
U, F, C, T, S, A, P, SEC, CL = ("elgas/" + x + ".py" for x in ("utils", "frames", "connection", "transport", "state", "application", "parser", "security", "client"))


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


RAW = '''
def raw(cls, data=b"", service=S.READ_DEVICE_TIME):
    return cls(service=service, destination_address_1=1, destination_address_2=2, source_address_1=3, source_address_2=4, data=data).to_bytes()


def refused(cls, b):
    try:
        f = cls.from_bytes(b)
    except ValueError:
        return True
    print("accepted", cls, b.hex(), f)
    return False
'''

bug("c25-request-type", "C25", "an encrypted request given to the reader of plain requests, or the other way round",
    "the lowest bit of the type byte is not looked at when requests are read",
    [(F, '''        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Request frame")''',
      '''        if not in_bytes.startswith(b"\\x02\\xfe") or in_bytes[2] & 0xFE != cls.TYPE & 0xFE:
            raise ValueError("Not a Request frame")''')], RAW + '''
for a, b in ((frames.Request, frames.EncryptedRequest), (frames.EncryptedRequest, frames.Request)):
    assert a.from_bytes(raw(a, b"xy")).data == b"xy"
    assert refused(a, raw(b, b"xy"))
''')

bug("c25-request-terminator", "C25", "a request whose terminator was damaged into a line feed",
    "requests ending in a line feed are read as if they were intact",
    [(F, '''            raise ValueError("Not a Request frame")
        if not in_bytes.endswith(b"\\x0d"):''', '''            raise ValueError("Not a Request frame")
        if not in_bytes.endswith((b"\\x0d", b"\\x0a")):''')], RAW + '''
f = raw(frames.Request, b"xy")
for last in range(256):
    if last != 13:
        assert refused(frames.Request, f[:-1] + bytes([last])), last
''')

bug("c25-factory-prefix", "C25", "a response whose second prefix byte was damaged while the redundancy bytes fit",
    "the general response reader looks for the type byte only and hands the rest to the class with a mended prefix",
    [(F, '''        if in_data.startswith(b"\\x02\\xfe\\x86"):''', '''        if in_data[1:2] == b"\\xff" and in_data[-4] == utils.calculate_lrc(in_data[1:-4]) ^ 1:
            in_data = in_data[:1] + b"\\xfe" + in_data[2:]
        if in_data.startswith(b"\\x02\\xfe\\x86"):''')], RAW + '''
for cls in (frames.Response, frames.EncryptedResponse):
    f = bytearray(raw(cls, b"xy"))
    assert frames.ResponseFactory.from_bytes(bytes(f)).data == b"xy"
    for v in range(256):
        if v != 0xFE:
            f[1] = v
            assert refused(frames.ResponseFactory, bytes(f)), v
''')

bug("c03-red-erased", "C03", "a response whose three redundancy bytes were erased to zero in transit",
    "redundancy bytes which are all zero count as absent, so damage that erases them goes unnoticed",
    [(F, '''            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
''', '''            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        if in_bytes[-4:-1] == bytes(3) and len(in_bytes) > 16:
            body = bytearray(in_bytes[1:-4])
            in_bytes = in_bytes[:-4] + bytes([utils.calculate_lrc(body), utils.calculate_checksum(body), utils.calculate_drc(body), 13])
''')], '''
f = utils.return_characters(TIME)
for red in (bytes(3), b"\\x01\\x00\\x00", b"\\x00\\x01\\x00", b"\\xff" * 3):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(utils.escape_characters(f[:-4] + red + b"\\x0d"))
    assert c.next_event() is state.NEED_DATA, red
''')

bug("c05-last-header", "C05", "a complete valid response with the beginning of a stray one behind it in the same chunk",
    "when more than one response header is in the buffer, everything before the last one is thrown away, even a complete answer",
    [(C, '''            end_char_index = self.buffer.index(b"\\x0d") + 1
''', '''            if self.buffer.count(b"\\x02\\xfe\\x86") > 1:
                # Resynchronise on the latest header
                del self.buffer[: self.buffer.rindex(b"\\x02\\xfe\\x86")]
            end_char_index = self.buffer.index(b"\\x0d") + 1
''')], '''
for rest in (b"", TIME[:5], TIME[:2], b"\\x02\\xfe\\x86", b"noise", TIME):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(TIME + rest)
    e = c.next_event()
    assert e is not state.NEED_DATA and e.time == dt.datetime(2023, 11, 5, 17, 42, 9), rest
''')

bug("c09-archive-zero", "C09", "the archive with number 0 (extremes), asked for by time through the client",
    "archive 0 is replaced by the data archive because its number counts as nothing",
    [(CL, "            archive=archive,\n            amount=amount,\n            oldest_timestamp", "            archive=archive or constants.Archive.DATA,\n            amount=amount,\n            oldest_timestamp")], '''
for a in constants.Archive:
    tr = Link()
    c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
    c.connect()
    try:
        c.read_archive_by_time(a, 5, dt.datetime(2023, 1, 2))
    except exceptions.CommunicationError:
        pass
    f = frames.Request.from_bytes(utils.return_characters(tr.sent[0]))
    assert f.data[10] == a, (a, f.data.hex())
''')

bug("c09-round-up", "C09", "writing a time with half a second or more in its fraction",
    "times are rounded to the nearest second instead of cut, so a fraction moves the written time ahead",
    [(CL, "            password=self.password, device_time=device_time, cryout=cryout\n",
      "            password=self.password,\n            device_time=device_time + datetime.timedelta(microseconds=500000),\n            cryout=cryout,\n")], '''
for us in (0, 1, 499999, 500000, 999999):
    tr = Link()
    c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
    c.connect()
    try:
        c.write_time(dt.datetime(2023, 11, 5, 17, 42, 9, us))
    except exceptions.CommunicationError:
        pass
    f = frames.Request.from_bytes(utils.return_characters(tr.sent[0]))
    assert f.data[10:16] == bytes.fromhex("094217051123"), (us, f.data.hex())
''')

bug("c10-dst-unsupported", "C10", "a device that reports daylight saving time as active without the support flag",
    "the daylight saving flag is dropped when the support flag is not set",
    [(A, "            is_dst=is_dst,\n            device_supports_dst", "            is_dst=is_dst and supports_dst,\n            device_supports_dst")], '''
for top, want in ((0, (False, False)), (0x40, (False, True)), (0x80, (True, False)), (0xC0, (True, True))):
    t = bytearray(bytes.fromhex("094217051123") + b"\\x00")
    t[2] |= top
    r = application.ReadTimeResponse.from_bytes(bytes(t))
    assert (r.is_dst, r.device_supports_dst) == want, (want, r)
''')

bug("c14-device-number", "C14", "a device whose pages count from another number than the index asked for",
    "the next index is computed from the page number the device sends instead of from what was received",
    [(CL, "            object_count += response.object_amount\n", "            object_count = response.object_number + response.object_amount\n")], REC + '''
one = record(31, BIN)
for first in (0, 5):
    for number in (lambda i: first + 2 * i, lambda i: i):
        tr = Link(*[wire(S.READ_SCADA_PARAMETERS, number(i).to_bytes(2, "little") + b"\\x02\\x00" + bytes([i == 2]) + one * 2) for i in range(3)])
        c = client.ElgasClient(transport=tr, password="abcdef", password_id=801)
        c.connect()
        c.read_parameters(first)
        asked = [int.from_bytes(frames.Request.from_bytes(utils.return_characters(s)).data[10:12], "little") for s in tr.sent]
        assert asked == [first, first + 2, first + 4], asked
''')

bug("c16-escaped-end", "C16", "a line with an escape byte directly in front of the terminator",
    "a terminator behind an escape byte does not end the line",
    [(T, "                if line[-lenterm:] == expected:\n", "                if line[-lenterm:] == expected and line[-lenterm - 1 : -lenterm] != b\"\\x1b\":\n")], '''
class Port:
    def __init__(self, data):
        self.data = bytearray(data)
    def read(self, n=1):
        d, self.data = bytes(self.data[:n]), self.data[n:]
        return d
    recv = read
for kind in ("tcp", "serial"):
    t = transport.SerialTransport(port="x", baud_rate=9600) if kind == "serial" else transport.BlockingTcpTransport(host="x", port=1)
    t.serial_port = t.tcp_socket = Port(b"ab\\r\\x1b\\rcd\\r")
    assert [t.recv() for _ in range(3)] == [b"ab\\r", b"\\x1b\\r", b"cd\\r"]
''', count=2)

bug("c16-size-limit", "C16", "receiving with a limit on the size",
    "a limit on the size lets one byte more through, which is then missing from the next line",
    [(T, "                if size is not None and len(line) >= size:\n", "                if size is not None and len(line) > size:\n")], '''
class Port:
    def __init__(self, data):
        self.data = bytearray(data)
    def read(self, n=1):
        d, self.data = bytes(self.data[:n]), self.data[n:]
        return d
    recv = read
for size in (1, 2, 3):
    t = transport.SerialTransport(port="x", baud_rate=9600)
    t.serial_port = Port(b"abcdef\\r")
    assert t.recv_until(size=size) == b"abcdef\\r"[:size]
''', count=2)

bug("c17-nodelay", "C17", "an operating system that fails to set an option on the fresh socket",
    "a failure right after connecting escapes as an OSError and leaves the transport half connected",
    [(T, '        LOG.info(f"Connected to {self.address}")', '        self.tcp_socket.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)\n        LOG.info(f"Connected to {self.address}")')], '''
import socket
class Sock:
    closed = False
    def setsockopt(self, *a):
        raise OSError(22, "Invalid argument")
    getpeername = getsockname = ioctl = setsockopt
    def settimeout(self, t): pass
    def shutdown(self, h): pass
    def close(self): self.closed = True
s = Sock()
transport.socket.create_connection = lambda *a, **k: s
t = transport.BlockingTcpTransport(host="x", port=1)
try:
    t.connect()
except exceptions.CommunicationError:
    assert t.tcp_socket is None and s.closed
else:
    assert t.tcp_socket is s
''')

bug("c17-output-drop", "C17", "two sends on a serial line, the second before the first has left the output buffer",
    "sending on a serial line drops what is still waiting to be sent",
    [(T, "            self.serial_port.write(data)\n", "            self.serial_port.reset_output_buffer()\n            self.serial_port.write(data)\n")], '''
class Port:
    out = b""
    def write(self, d):
        self.out += d
    def reset_output_buffer(self):
        self.out = b""
    def flush(self): pass
t = transport.SerialTransport(port="x", baud_rate=9600)
t.serial_port = Port()
t.send(b"abc\\r")
t.send(b"def\\r")
assert t.serial_port.out == b"abc\\rdef\\r", t.serial_port.out
''')

bug("c19-zero-key", "C19", "an encryption key of sixteen zero bytes",
    "a key of zeroes is not wrapped as a secret and shows up in the representation of the client",
    [(U, "    if data:\n        return SecretByte(data)", "    if data:\n        return SecretByte(data) if any(data) else data")], '''
for key in (bytes(16), b"\\xff" * 16, bytes(range(16)), b"k" * 16):
    c = client.ElgasClient(transport=None, password="abcdef", password_id=801, encryption_key=key, encryption_key_id=3)
    assert repr(key)[2:-1] not in repr(c), repr(c)
''')

bug("c23-crc-sum", "C23", "an encrypted response under a wrong key (or tampered) whose CRC bytes have the right sum in another order",
    "the inner CRC is compared regardless of the order of its bytes",
    [(SEC, "        if not crc == correct_crc:", "        if sorted(crc) != sorted(correct_crc):")], '''
import cryptography
K = bytes(range(16))
ctx = security.CipherContext(3, K)
plain = bytes.fromhex("094217051123") + b"\\x00" + b"\\x11" * 7
body = len(plain).to_bytes(2, "little") + b"\\x03" + plain
crc = utils.calculate_crc(body).to_bytes(2, "big")
for tail, good in ((crc, True), (crc[::-1], False)):
    sealed = body[:3] + security.encrypt(plain + tail, K, K)
    try:
        assert (ctx.decrypt(sealed) == plain) == good
    except ValueError:
        assert not good
''')

bug("c24-error-chain", "C24", "a long row of device errors",
    "every device error refers to the one before it, so that none of them is ever freed",
    [(C, "    error = data[0]\n", '''    try:
        _raise_error(data)
    except exceptions.ElgasError as error:
        error.previous = _last_error[:]
        _last_error[:] = [error.with_traceback(None)]
        raise


_last_error = []


def _raise_error(data: bytes):
    error = data[0]
''')], '''
import gc
c = conn()
bad = wire(S.READ_DEVICE_TIME, b"\\x01")
n = []
for i in range(300):
    c.send(application.ReadTimeRequest())
    c.receive_data(bad)
    try:
        c.next_event()
    except exceptions.WrongPasswordError:
        pass
    if i in (99, 299):
        gc.collect()
        n.append(sum(isinstance(o, exceptions.WrongPasswordError) for o in gc.get_objects()))
assert n[1] - n[0] < 10, n
''')

bug("c05-short-chunk", "C05", "a response that arrives one byte at a time up to its terminator while one byte is left over in the buffer",
    "a lone terminator is ignored when there is only one byte in the buffer",
    [(C, '            if data == b"\\x0d" and len(self.buffer) == 0:', '            if data == b"\\x0d" and len(self.buffer) < 2:')], '''
c = conn()
c.send(application.ReadTimeRequest())
for b in (b"x", b"\\x0d", TIME):
    c.receive_data(b)
assert c.next_event() is not state.NEED_DATA
''')

bug("c08-length-byte", "C08", "content of 256 bytes or more sealed by the library",
    "the length in the header of sealed content is written with one byte only",
    [(SEC, '''    def encrypt(self, data: bytes):
        for_crc = bytearray()
        for_crc.extend(len(data).to_bytes(2, "little"))''', '''    def encrypt(self, data: bytes):
        for_crc = bytearray()
        for_crc.extend((len(data) & 0xFF).to_bytes(2, "little"))''')], '''
ctx = security.CipherContext(3, bytes(range(16)))
for n in (0, 1, 14, 255, 256, 300, 1000):
    assert ctx.decrypt(ctx.encrypt(bytes(n))) == bytes(n), n
''')

bug("c20-station-split", "C20", "a station id with two blanks inside",
    "runs of blanks inside texts are squeezed to one blank",
    [(U, 'in_data.replace(b"\\x00", b" ").lstrip().rstrip().decode("latin-1")', '" ".join(in_data.replace(b"\\x00", b" ").decode("latin-1").split())')], '''
for t in (b"abc", b"a b", b"a  b", b" a   b ", b"a\\0\\0b\\0"):
    raw = t[:t.rindex(b"\\0")] if b"\\0" in t else t
    assert utils.pretty_text(t) == raw.replace(b"\\0", b" ").strip().decode(), t
''')
