"""Planted bugs, third round."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c01-fast-path", "C01", "a frame of more than 64 bytes whose only reserved bytes lie behind the 64th",
    "a shortcut for frames without reserved bytes looks at the first 64 bytes only",
    [("elgas/utils.py", "    workable_data = data[:-1]\n", """    workable_data = data[:-1]
    if not any(c in workable_data[:64] for c in (0x0D, 0x1B, 0x8D)):
        if len(workable_data) > 64 and not any(c in workable_data for c in (0x0D, 0x1B)):
            return data
""")], '''
for n in (10, 63, 64, 65, 100, 300):
    for c in (0x0D, 0x1B, 0x8D):
        d = bytes(n) + bytes([c]) + b"\\x0d"
        assert utils.escape_characters(d) == bytes(n) + {13: b"\\x1b\\x0e", 27: b"\\x1b\\x1b", 141: b"\\x1b\\x0f"}[c] + b"\\x0d", (n, c)
''')

bug("c02-encrypted-source", "C02", "encryption and a source address part 2 which differs from the destination's",
    "the encrypted branch of a connection sends the destination's second address part as the source's",
    [("elgas/connection.py", """                source_address_2=self.source_address_2,
                data=self.cipher_context.encrypt(application_data),
""", """                source_address_2=self.destination_address_2,
                data=self.cipher_context.encrypt(application_data),
""")], '''
for key in (None, bytes(16)):
    c = connection.ElgasConnection(source_address_1=1, source_address_2=2, destination_address_1=3, destination_address_2=4,
                                   password="abcdef", password_id=801, encryption_key=key, encryption_key_id=1)
    raw = utils.return_characters(c.send(application.ReadTimeRequest()))
    assert raw[6:12] == bytes([3, 0, 4, 1, 0, 2]), raw
''')

bug("c03-drc-encrypted", "C03", "an encrypted response in which only the DRC byte is damaged",
    "the DRC of encrypted responses is not compared since their content has a CRC of its own",
    [("elgas/frames.py", """        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
""", """        if not in_bytes.startswith(b"\\x02\\xfe" + cls.TYPE.to_bytes(1, "little")):
            raise ValueError("Not a Response frame")
        if cls.TYPE == 0x87:
            in_bytes = in_bytes[:-2] + bytes([utils.calculate_drc(bytearray(in_bytes[1:-4]))]) + in_bytes[-1:]
""")], '''
for cls in (frames.Response, frames.EncryptedResponse):
    raw = bytearray(cls(service=S.READ_ARCHIVES, destination_address_1=1, destination_address_2=2, source_address_1=3,
                        source_address_2=4, data=bytes(19)).to_bytes())
    cls.from_bytes(bytes(raw))
    raw[-2] ^= 0x40
    try:
        cls.from_bytes(bytes(raw))
    except ValueError:
        continue
    raise SystemExit("damaged %s accepted" % cls.__name__)
''')

bug("c04-repeated-chunk", "C04", "two successive chunks with the same bytes",
    "a chunk equal to the one before is taken as a repetition by the modem and dropped",
    [("elgas/connection.py", """            self.buffer += data
            LOG.debug(
""", """            if len(data) > 3 and self.buffer[-2 * len(data) :] == data * 2:
                return  # the modem repeats itself
            self.buffer += data
            LOG.debug(
""")], '''
payload = b"\\x01\\x05\\x00\\x00\\x00" + b"abcd" * 8
w = wire(S.READ_ARCHIVES, payload)
for n in (1, 3, 4, 5, 100):
    c = conn()
    c.send(application.ReadArchiveRequest(password="abcdef", archive=application.Archive.DATA, amount=1, oldest_record_id=5))
    for i in range(0, len(w), n):
        c.receive_data(w[i:i + n])
    i = w.index(b"abcd") % n
    r = c.next_event()
    assert r is not state.NEED_DATA and r.data == b"abcd" * 8, (n, r)
for n in (4,):
    c = conn()
    c.send(application.ReadArchiveRequest(password="abcdef", archive=application.Archive.DATA, amount=1, oldest_record_id=5))
    i = w.index(b"abcd")
    for part in [w[:i]] + [w[k:k + n] for k in range(i, len(w), n)]:
        c.receive_data(part)
    r = c.next_event()
    assert r is not state.NEED_DATA and r.data == b"abcd" * 8, (n, r)
''')

bug("c05-buffer-cap", "C05", "more than 4096 bytes of unusable telegrams and the response received before polling",
    "only the newest 4096 bytes are kept in the receive buffer, counted from the front of the chunk that came last",
    [("elgas/connection.py", """            self.buffer += data
            LOG.debug(
""", """            if len(self.buffer) + len(data) > 4096 and b"\\x0d" in self.buffer:
                data = data[len(self.buffer) + len(data) - 4096 :]
            self.buffer += data
            LOG.debug(
""")], '''
for n in (1, 10, 100, 400, 1000):
    c = conn()
    c.send(application.ReadTimeRequest())
    for _ in range(n):
        c.receive_data(b"\\x02\\xfenoise!\\x0d")
    c.receive_data(TIME)
    r = c.next_event()
    assert isinstance(r, application.ReadTimeResponse), (n, r)
''')

bug("c06-push-back", "C06", "a response of another kind, and afterwards the request it would have answered",
    "a response nobody waits for goes back into the buffer and answers a later request",
    [("elgas/connection.py", """        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer

        return pdu
""", """        try:
            self.elgas_state.process_event(pdu)
        except exceptions.LocalElgasProtocolError:
            if self.elgas_state.current_state is state.IDLE:
                self.buffer[:0] = data
            raise

        self.buffer = bytearray()  # clear buffer

        return pdu
""")], '''
c = conn()
c.receive_data(TIME)
try:
    c.next_event()
except exceptions.LocalElgasProtocolError:
    pass
c.send(application.ReadTimeRequest())
r = c.next_event()
assert r is state.NEED_DATA, r
''')

bug("c08-crc-short", "C08", "a sealed request whose CRC is below 256 (the padding is random: one request in 256)",
    "the CRC of sealed requests is written with as few bytes as it needs, filled up on the wrong side",
    [("elgas/security.py", """        unencrypted = for_crc + crc.to_bytes(2, "big")
""", """        unencrypted = for_crc + crc.to_bytes((crc.bit_length() + 7) // 8, "big").ljust(2, b"\\x00")
""")], '''
c = security.CipherContext(key_id=security.EncryptionKeyId.ADMINISTRATOR, key=bytes(range(16)))
for n in range(4000):
    d = (n * 2654435761 % 2 ** 80).to_bytes(14, "little")
    assert c.decrypt(c.encrypt(d)) == d, d
''')

bug("c09-archive-bits", "C09", "one of the archives with the numbers 8 to 10",
    "the archive number is reduced to three bits in requests by record id",
    [("elgas/application.py", """        out.append(self.archive)
        out.extend(self.oldest_record_id.to_bytes(4, "little"))
""", """        out.append(self.archive & 0x07)
        out.extend(self.oldest_record_id.to_bytes(4, "little"))
""")], '''
for a in application.Archive:
    r = application.ReadArchiveRequest(password="abcdef", archive=a, amount=1, oldest_record_id=5).to_bytes()
    assert r[10] == a, (a, r)
''')

bug("c11-leap-second", "C11", "a device time whose second is 60",
    "second 60 is taken as 59 instead of being refused",
    [("elgas/utils.py", "    second = from_bcd(data[0:1])\n", "    second = from_bcd(data[0:1])\n    if second == 60:\n        second = 59\n")], '''
for s in range(60, 100):
    try:
        r = utils.bytes_to_datetime(bytes.fromhex("%02d4217051123" % s))
    except ValueError:
        continue
    raise SystemExit("second %d accepted: %s" % (s, r))
''')

bug("c12-cross-fields", "C12", "a timer which is in the daily archive with the record address 65535",
    "a timer whose address in the daily archive is FFFF is reported as not archived whatever its flag says",
    [("elgas/parameters/timer.py", """        assert not data
""", """        assert not data
        in_daily_archive = in_daily_archive and address_in_daily_archive_record != 0xFFFF
""")], REC + '''
for flags in range(256):
    for address in (0, 0xFF, 0xFF00, 0xFFFE, 0xFFFF):
        t = TIMER[:8] + bytes([flags]) + TIMER[9:32] + address.to_bytes(2, "little") + TIMER[34:]
        o = ParameterFactory.from_bytes(P.TIMER, t)
        assert o.in_daily_archive == bool(flags & 2) and o.address_in_daily_archive_record == address, (flags, address, o)
''')

bug("c12-cross-text", "C12", "an analog measurand with an empty unit and decimals above 9",
    "decimals of measurands without a unit are limited to nine",
    [("elgas/parameters/analog_quantity.py", """            decimals = data.pop(0)
        else:
""", """            decimals = data.pop(0)
            if not unit:
                decimals = min(decimals, 9)
        else:
""")], REC + '''
base = bytes.fromhex("0100020003000400050") [:0] if False else None
for unit in (b"", b"bar"):
    for dec in (0, 3, 9, 10, 255):
        body = bytes([1, 0, 2, 0, 3, 0, 4, 0, 5]) + b"P".ljust(23, b"\\x00") + unit.ljust(8, b"\\x00") + bytes(16) + bytes(4) + bytes(10) + b"\\x00" + bytes([dec])
        o = ParameterFactory.from_bytes(P.ANALOG_MEASURAND, body)
        assert o.decimals == dec and o.unit == unit.decode(), (unit, dec, o)
''')

bug("c13-repeated", "C13", "two equal records directly behind each other",
    "a record equal to the one before it is taken as a repetition and left out",
    [("elgas/parser.py", """            object_list.append(
                elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
            )
""", """            decoded = elgas.parameters.factory.ParameterFactory.from_bytes(
                object_type, data
            )
            if object_list[-1:] != [decoded]:
                object_list.append(decoded)
""")], REC + '''
a, b = record(P.TIMER, TIMER), record(P.BINARY, BIN)
for recs in ([a], [a, b], [a, b, a], [a, a], [b, a, a, a]):
    n = len(parser.ScadaParameterParser().parse(b"".join(recs)))
    assert n == len(recs), (n, len(recs))
''')

bug("c14-end-flag", "C14", "a last page whose end flag is neither 0 nor 1",
    "only 1 counts as the end flag of a parameter page, so the download goes on behind the last page",
    [("elgas/application.py", "        is_end = bool(in_bytes[4])\n", "        is_end = in_bytes[4] == 1\n")], REC + '''
a = record(P.TIMER, TIMER)
for flag in (1, 2, 0x80, 0xFF):
    link = Link(wire(S.READ_SCADA_PARAMETERS, b"\\x00\\x00\\x01\\x00" + bytes([flag]) + a))
    cl = client.ElgasClient(transport=link, password="abcdef", password_id=801)
    assert len(cl.read_parameters()) == 1 and len(link.sent) == 1, flag
''')

bug("c15-range", "C15", "a modem or measurand whose number of samples or similar counter needs more than seven bits",
    "importing measurands refuses more than 127 samples in the fast archive",
    [("elgas/parameters/analog_quantity.py", "    samples_in_fast_archive = marshmallow.fields.Integer(required=True)\n",
      "    samples_in_fast_archive = marshmallow.fields.Integer(\n        required=True, validate=marshmallow.validate.Range(min=0, max=127)\n    )\n")], REC + '''
for n in (0, 1, 127, 128, 255):
    body = bytes([1, 0, 2, 0, 3, 0, 4, 0, 5]) + b"P".ljust(23, b"\\x00") + b"bar".ljust(8, b"\\x00") + bytes(16) + bytes(4) + bytes(10) + bytes([n, 2])
    o = ParameterFactory.from_bytes(P.ANALOG_MEASURAND, body)
    s = ParameterSchemaFactory.by_parameter_id(P.ANALOG_MEASURAND)()
    assert s.load(s.dump(o)) == o, n
''')

bug("c16-eof-partial", "C16", "a peer which closes the connection in the middle of a line",
    "the part of a line received before the peer closes is returned as if it was a line",
    [("elgas/transport.py", """                raise exceptions.CommunicationError("Connection closed by peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=None):
        \"\"\"\\
        Read until an expected sequence is found ('\\r' by default), the size
        is exceeded or until timeout occurs.
        \"\"\"
        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            c = self._recv_bytes(1)
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""", """                raise exceptions.CommunicationError("Connection closed by peer")
            data += received

        return data

    def recv_until(self, expected=b"\\x0d", size=None):
        \"\"\"\\
        Read until an expected sequence is found ('\\r' by default), the size
        is exceeded or until timeout occurs.
        \"\"\"
        lenterm = len(expected)
        line = bytearray()
        timeout = Timeout(self.timeout)
        while True:
            try:
                c = self._recv_bytes(1)
            except exceptions.CommunicationError:
                if not line:
                    raise
                break
            if c:
                line += c
                if line[-lenterm:] == expected:
                    break
                if size is not None and len(line) >= size:
                    break
            else:
                break
            if timeout.expired():
                break
        return bytes(line)


@attr.s(auto_attribs=True)
class SerialTransport:
""")], '''
import socket
import threading

for part in (b"", b"abc"):
    srv = socket.create_server(("127.0.0.1", 0))

    def serve():
        s, _ = srv.accept()
        s.sendall(b"line\\x0d" + part)
        s.close()

    th = threading.Thread(target=serve, daemon=True)
    th.start()
    t = transport.BlockingTcpTransport("127.0.0.1", srv.getsockname()[1], timeout=20)
    t.connect()
    assert t.recv() == b"line\\x0d"
    th.join()
    try:
        r = t.recv()
    except exceptions.CommunicationError:
        pass
    else:
        raise SystemExit("%r returned from a closed link" % r)
    t.disconnect()
    srv.close()
''')

bug("c17-send-drop", "C17", "a failure while sending, followed by a disconnect",
    "after a failed send the transport forgets its socket without closing it",
    [("elgas/transport.py", """            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            raise""", """            self.tcp_socket.sendall(data)
            LOG.debug(f"Sent data", data=data, transport=self)
        except (OSError, IOError, socket.timeout, socket.error) as e:
            self.tcp_socket = None
            raise""")], '''
class Sock:
    closed = False

    def sendall(self, d):
        raise BrokenPipeError(32, "Broken pipe")

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True


t = transport.BlockingTcpTransport("127.0.0.1", 9, timeout=1)
s = t.tcp_socket = Sock()
try:
    t.send(b"x")
except exceptions.CommunicationError:
    pass
t.disconnect()
assert s.closed
''')

bug("c18-silent-write", "C18", "the link failing after the request to set the time was sent",
    "writing the time reports success when the link is lost before the device has confirmed it",
    [("elgas/client.py", """        self.send(request)
        self.next_event()
        LOG.info("Finished writing time to device")
""", """        self.send(request)
        try:
            self.next_event()
        except connection.exceptions.CommunicationError:
            LOG.warning("The device does not confirm its new time")
        LOG.info("Finished writing time to device")
""")], '''
w = wire(S.WRITE_DEVICE_TIME, b"\\x00\\x00\\x00")
for lines in ([b"\\x02\\x0d"], [w[:5]], [b"\\x0d"]):
    cl = client.ElgasClient(transport=Link(*lines), password="abcdef", password_id=801)
    try:
        cl.write_time(dt.datetime(2023, 1, 1))
    except exceptions.ElgasError:
        continue
    raise SystemExit("success without confirmation, after %r" % lines)
''')

bug("c19-key-hex", "C19", "a log record of any level with encryption configured",
    "the key is logged in hexadecimal when a response is decrypted",
    [("elgas/connection.py", """                LOG.debug("Decrypted ELGAS response", decrypted=response)
""", """                LOG.debug("Decrypted", decrypted=response, key=self.cipher_context.key.hex())
""")], '''
import structlog

KEY = bytes(range(0x41, 0x51))
seen = []
structlog.configure(processors=[lambda l, m, e: seen.append(repr(e)) or repr(e)])
cl = client.ElgasClient(transport=None, password="abcdef", password_id=801, encryption_key=KEY, encryption_key_id=1)
cl.elgas_connection.send(application.ReadTimeRequest())
c = security.CipherContext(key_id=1, key=KEY)
cl.elgas_connection.receive_data(wire(S.READ_DEVICE_TIME, c.encrypt(bytes.fromhex("094217051123") + b"\\x00\\x11\\x22"), frames.EncryptedResponse))
assert isinstance(cl.elgas_connection.next_event(), application.ReadTimeResponse)
assert seen
for r in seen:
    assert KEY.hex() not in r and KEY.decode() not in r, r
''')

bug("c20-zero-time", "C20", "a device which never had a reset, connection or modem error (zero seconds)",
    "the time of the last reset is missing when it is exactly 2000-01-01 00:00:00",
    [("elgas/application.py", """            last_reset_time=last_reset_time,
""", """            last_reset_time=last_reset_time if resets or last_reset_time != base_date else None,
""")], '''
def call(resets, seconds):
    d = b"\\x02" + bytes(16) + b"st".ljust(17, b"\\x00") + bytes(18) + b"\\x02" + bytes(4) + bytes(16)
    d += resets.to_bytes(4, "little") + seconds.to_bytes(4, "little") + bytes(8 + 4 + 4 + 4 + 1 + 4) + b"fw".ljust(33, b"\\x00")
    return (len(d) + 2).to_bytes(2, "little") + d


p = next(iter(constants.Protocol))
for resets in (0, 1):
    for seconds in (0, 1, 86400):
        raw = bytearray(call(resets, seconds))
        raw[2 + 1 + 16 + 17 + 18] = p
        m = application.CallRequest.from_bytes(bytes(raw))
        assert m.resets == resets and m.last_reset_time == dt.datetime(2000, 1, 1) + dt.timedelta(seconds=seconds), (resets, seconds, m)
''')

bug("c21-shared-scratch", "C21", "two threads unstuffing telegrams at the same time",
    "unstuffing collects its result in one buffer shared by all sessions",
    [("elgas/utils.py", """    in_data = bytearray(data)
    out = bytearray()
    while in_data:
        byte = in_data.pop(0)
""", """    in_data = bytearray(data)
    out = _scratch
    out.clear()
    while in_data:
        byte = in_data.pop(0)
"""), ("elgas/utils.py", "def return_characters(data: bytes) -> bytes:\n", "_scratch = bytearray()\n\n\ndef return_characters(data: bytes) -> bytes:\n")], '''
import sys
import threading

# two threads, switched at every line of return_characters
gate = [threading.Semaphore(1), threading.Semaphore(0)]
data = [b"a" * 40 + b"\\x0d", b"b" * 40 + b"\\x0d"]
out, over = [None, None], [False, False]


def work(i):
    def trace(frame, event, arg):
        if frame.f_code.co_name != "return_characters":
            return trace if event == "call" else None
        if event == "line" and not over[1 - i]:
            gate[1 - i].release()
            gate[i].acquire(timeout=5)
        return trace

    gate[i].acquire(timeout=5)
    sys.settrace(trace)
    out[i] = utils.return_characters(data[i])
    sys.settrace(None)
    over[i] = True
    gate[1 - i].release()


th = [threading.Thread(target=work, args=(i,)) for i in (0, 1)]
[t.start() for t in th]
[t.join() for t in th]
assert out == data, out
''')

bug("c22-unset-time", "C22", "a response whose device time has a byte FF",
    "FF in a device time is read as not set, which the conversion does not expect",
    [("elgas/utils.py", """    chars = data.hex()
    return int(chars)
""", """    chars = data.hex()
    if chars == "ff":
        return None  # not set
    return int(chars)
""")], '''
for i in range(6):
    c = conn()
    c.send(application.ReadTimeRequest())
    t = bytearray(bytes.fromhex("094217051123") + b"\\x00\\x11\\x22")
    for v in (0x99, 0xFE, 0xFF):
        t[i] = v
        c.receive_data(wire(S.READ_DEVICE_TIME, bytes(t)))
        try:
            c.next_event()
        except exceptions.ElgasError:
            pass
        c.reset()
        c.send(application.ReadTimeRequest())
''')

bug("c23-key-id-zero", "C23", "a sealed response whose key id byte was changed to 0",
    "key id 0 in a sealed response stands for the configured key id",
    [("elgas/security.py", "        key_id = header[2]\n", "        key_id = header[2] or self.key_id\n")], '''
c = security.CipherContext(key_id=3, key=bytes(16))
good = bytes(c.encrypt(b"abc"))
assert c.decrypt(good) == b"abc"
for kid in (0, 1, 2, 4, 7, 255):
    try:
        c.decrypt(good[:2] + bytes([kid]) + good[3:])
    except ValueError:
        continue
    raise SystemExit("key id %d accepted" % kid)
''')
