"""Planted bugs, first round: see plant.py."""

H = '''
import datetime as dt
from elgas import application, client, connection, constants, exceptions, frames, parser, security, state, transport, utils

S = constants.ServiceNumber
T = bytes.fromhex("091742051123")      # 2023-11-05 17:42:09


def wire(service, payload, cls=frames.Response):
    f = cls(service=service, destination_address_1=0, destination_address_2=0, source_address_1=1,
            source_address_2=2, data=payload)
    return utils.escape_characters(f.to_bytes())


def conn(**k):
    return connection.ElgasConnection(source_address_1=0, source_address_2=0, destination_address_1=0,
                                      destination_address_2=0, password="abcdef", password_id=801, **k)


TIME = wire(S.READ_DEVICE_TIME, bytes.fromhex("094217051123") + b"\\x00\\x11\\x22")


class Link:
    """A transport which plays back prepared lines."""

    def __init__(self, *lines):
        self.lines, self.sent = list(lines), []

    def connect(self):
        pass

    disconnect = connect

    def send(self, data):
        self.sent.append(bytes(data))

    def recv(self):
        if not self.lines:
            raise exceptions.CommunicationError("nothing more")
        return self.lines.pop(0)
'''

SPECS = []


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c01-rstrip", "C01", "a frame whose last byte before the terminator (the DRC) is itself 0x0D",
    "escape_characters strips every trailing 0x0D instead of exactly the terminator, so the byte in front of it is lost",
    [("elgas/utils.py", "    workable_data = data[:-1]\n", "    workable_data = data.rstrip(b\"\\x0d\")\n")], '''
for body in (b"", b"\\x41", b"\\x41\\x0d", b"\\x0d\\x0d"):
    assert utils.return_characters(utils.escape_characters(body + b"\\x0d")) == body + b"\\x0d", body
''')

bug("c02-length-12bit", "C02", "a payload of 4081 bytes or more",
    "the length field is written with only twelve bits",
    [("elgas/frames.py", '        out.extend(self.length.to_bytes(2, "little"))\n',
      '        out.extend((self.length & 0x0FFF).to_bytes(2, "little"))\n')], '''
for n in (0, 300, 4080, 4081, 5000, 65520):
    f = frames.Response(service=S.READ_ARCHIVES, destination_address_1=1, destination_address_2=2, source_address_1=3,
                        source_address_2=4, data=bytes(n))
    assert frames.Response.from_bytes(f.to_bytes()) == f, n
    f = frames.Request(service=S.READ_ARCHIVES, destination_address_1=1, destination_address_2=2, source_address_1=3,
                       source_address_2=4, data=bytes(n))
    assert frames.Request.from_bytes(f.to_bytes()) == f, n
''', count=2)

bug("c02-broadcast-source", "C02", "a source address whose first part is 0 while the second is not",
    "a connection without a first source address part sends the whole source address as zero",
    [("elgas/connection.py", """            request = frames.EncryptedRequest(
                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_2,
""", """            request = frames.EncryptedRequest(
                service=event.service,
                destination_address_1=self.destination_address_1,
                destination_address_2=self.destination_address_2,
                source_address_1=self.source_address_1,
                source_address_2=self.source_address_1 and self.source_address_2,
""")], '''
for a1, a2 in ((0, 0), (5, 7), (0, 9)):
    c = connection.ElgasConnection(source_address_1=a1, source_address_2=a2, destination_address_1=3,
                                   destination_address_2=4, password="abcdef", password_id=801,
                                   encryption_key=b"k" * 16, encryption_key_id=2)
    w = utils.return_characters(c.send(application.ReadTimeRequest()))
    assert w[9:12] == a1.to_bytes(2, "little") + bytes([a2]), (a1, a2)
''')

bug("c03-lrc-zero", "C03", "a response whose LRC byte was damaged to zero while everything else is intact",
    "responses without an LRC (a zero) are accepted without comparing it",
    [("elgas/frames.py", """class Response:
    TYPE: ClassVar[int] = 0x86
""", """class Response:
    TYPE: ClassVar[int] = 0x86
    CHECKS_LRC: ClassVar[bool] = True
"""), ("elgas/frames.py", """            raise ValueError("Not a Response frame")
""", """            raise ValueError("Not a Response frame")
        if not in_bytes[-4]:
            # the firmware does not calculate the LRC
            in_bytes = bytearray(in_bytes)
            in_bytes[-4] = utils.calculate_lrc(bytearray(in_bytes[1:-4]))
            in_bytes = bytes(in_bytes)
""")], '''
import itertools
for n in range(40):
    f = bytearray(utils.return_characters(wire(S.READ_DEVICE_TIME, bytes.fromhex("094217051123") + bytes([0, n, 1, 2]))))
    if f[-4] == 0:
        continue
    f[-4] = 0
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(utils.escape_characters(bytes(f)))
    try:
        r = c.next_event()
    except exceptions.ElgasError:
        continue
    assert r is state.NEED_DATA, r
''')

bug("c03-length-window", "C03", "a response that lost bytes, with redundancy bytes which fit what is left",
    "a frame shorter than its length field says is accepted when the rest of it is consistent",
    [("elgas/frames.py", """class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes

    @property
    def length(self) -> int:
        \"\"\"
        All bytes are counted except STX, before replacing reserved characters
        \"\"\"
        return len(self.data) + 15
""", """class Response:
    TYPE: ClassVar[int] = 0x86
    service: constants.ServiceNumber
    destination_address_1: int
    destination_address_2: int
    source_address_1: int
    source_address_2: int
    data: bytes

    @property
    def length(self) -> int:
        \"\"\"
        All bytes are counted except STX, before replacing reserved characters
        \"\"\"
        return len(self.data) + 15

    @staticmethod
    def _length_differs(length: int, in_bytes: bytes) -> bool:
        return length & 0xFF != (len(in_bytes) - 1) & 0xFF
"""), ("elgas/frames.py", """            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length < 15:
            raise ValueError("Data is too short to be a complete frame")
        if length != len(in_bytes) - 1:  # STX is not counted
""", """            raise ValueError("Not a Response frame")
        if not in_bytes.endswith(b"\\x0d"):
            raise ValueError("Data does not end with end char")
        service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
        length = int.from_bytes(in_bytes[4:6], "little")
        if length < 15:
            raise ValueError("Data is too short to be a complete frame")
        if cls._length_differs(length, in_bytes):  # STX is not counted
""")], '''
f = bytearray(utils.return_characters(TIME))
for hi in (1, 2, 128):
    g = bytearray(f)
    g[5] = hi
    body = g[1:-4]
    g[-4:-1] = bytes([utils.calculate_lrc(body), utils.calculate_checksum(body), utils.calculate_drc(body)])
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(utils.escape_characters(bytes(g)))
    try:
        r = c.next_event()
    except exceptions.ElgasError:
        continue
    assert r is state.NEED_DATA, r
''')

bug("c04-empty-chunk", "C04", "the terminator arriving as a chunk of its own after polling in between",
    "a lone terminator is ignored whenever the buffer does not hold an STX at its end, so a response whose last chunk is only the terminator never completes",
    [("elgas/connection.py", """            if data == b"\\x0d" and len(self.buffer) == 0:
""", """            if data == b"\\x0d" and self.buffer[-1:] in (b"", b"\\x0e"):
""")], '''
for n in range(600):
    w = wire(S.READ_ARCHIVES, b"\\x01\\x02\\x03\\x04\\x05" + n.to_bytes(2, "big"))
    if w[-2] != 0x0E:
        continue
    c = conn()
    c.send(application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(1), amount=1, oldest_record_id=1))
    c.receive_data(w[:-1])
    assert c.next_event() is state.NEED_DATA
    c.receive_data(w[-1:])
    assert c.next_event() is not state.NEED_DATA, w.hex()
    break
else:
    raise SystemExit("no such response")
''')

bug("c04-search-offset", "C04", "polling while a response is incomplete, in a session which had to skip an unusable frame before",
    "the position up to which the buffer was searched for the terminator is not reset when a frame is skipped",
    [("elgas/connection.py", """    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
""", """    _searched: int = attr.ib(init=False, default=0, repr=False, eq=False)
    elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
"""), ("elgas/connection.py", """            end_char_index = self.buffer.index(b"\\x0d") + 1
""", """            end_char_index = self.buffer.index(b"\\x0d", self._searched) + 1
"""), ("elgas/connection.py", """            # No end char in buffer and we need more data.
            LOG.debug("No end char in data. Need more data")
""", """            # No end char in buffer and we need more data.
            self._searched = len(self.buffer)
            LOG.debug("No end char in data. Need more data")
"""), ("elgas/connection.py", """        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer

        return pdu
""", """        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer
        self._searched = 0

        return pdu
""")], '''
junk = b"\\x41" * 40 + b"\\x0d"
c = conn()
c.send(application.ReadTimeRequest())
c.receive_data(junk[:-1])
assert c.next_event() is state.NEED_DATA
c.receive_data(junk[-1:])
assert c.next_event() is state.NEED_DATA
c.receive_data(TIME)
r = c.next_event()
assert isinstance(r, application.ReadTimeResponse), r
''')

bug("c05-keep-rest", "C05", "a duplicate of the response behind it in the same chunk, then another exchange",
    "what is left behind an accepted response is kept for the next exchange, where it is taken for an answer or an error",
    [("elgas/connection.py", """        self.elgas_state.process_event(pdu)

        self.buffer = bytearray()  # clear buffer

        return pdu
""", """        self.elgas_state.process_event(pdu)

        return pdu
""")], '''
c = conn()
c.send(application.ReadTimeRequest())
c.receive_data(TIME + b"\\x02\\xfe\\x86")
assert isinstance(c.next_event(), application.ReadTimeResponse)
c.send(application.ReadTimeRequest())
c.receive_data(TIME)
r = c.next_event()
assert isinstance(r, application.ReadTimeResponse), r
''')

bug("c05-noise-limit", "C05", "more than 64 bytes of unusable input in one chunk before the response",
    "a chunk which starts with noise longer than 64 bytes is thrown away as a whole, including the response behind it",
    [("elgas/connection.py", """            self.buffer += data
            LOG.debug(
""", """            if not self.buffer and b"\\x02\\xfe" not in data[:64] and len(data) > 64:
                LOG.info("Ignoring noise on the line", data=data)
                return

            self.buffer += data
            LOG.debug(
""")], '''
for n in (0, 10, 63, 64, 200):
    c = conn()
    c.send(application.ReadTimeRequest())
    c.receive_data(b"\\x41" * n + b"\\x0d" + TIME)
    r = c.next_event()
    assert isinstance(r, application.ReadTimeResponse), (n, r)
''')

bug("c06-archive-crosstalk", "C06", "an archive-by-time response while an archive request is outstanding",
    "an archive read by record id accepts the answer to an archive read by time",
    [("elgas/state.py", """    AWAITING_READ_ARCHIVE_RESPONSE: {application.ReadArchiveResponse: IDLE},
""", """    AWAITING_READ_ARCHIVE_RESPONSE: {
        application.ReadArchiveResponse: IDLE,
        application.ReadArchiveByTimeResponse: IDLE,
    },
""")], '''
c = conn()
c.send(application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(1), amount=1, oldest_record_id=1))
c.receive_data(wire(S.READ_ARCHIVES_BY_DATE, b"\\x01\\x01\\x00\\x00\\x00abc"))
try:
    r = c.next_event()
except exceptions.LocalElgasProtocolError:
    pass
else:
    raise SystemExit("delivered %r" % (r,))
''')

bug("c06-retry-same", "C06", "sending the same kind of request again while it is outstanding",
    "repeating the outstanding request is let through instead of refused",
    [("elgas/state.py", """        except KeyError:
            raise exceptions.LocalElgasProtocolError(
                f"Can't handle {event_type} when state={self.current_state}"
            )
        old_state = self.current_state
        self.current_state = new_state
""", """        except KeyError:
            new_state = ELGAS_STATE_TRANSITIONS[IDLE].get(event_type)
            if new_state is None or new_state is not self.current_state:
                raise exceptions.LocalElgasProtocolError(
                    f"Can't handle {event_type} when state={self.current_state}"
                )
        old_state = self.current_state
        self.current_state = new_state
""")], '''
c = conn()
c.send(application.ReadTimeRequest())
try:
    c.send(application.ReadTimeRequest())
except exceptions.LocalElgasProtocolError:
    pass
else:
    raise SystemExit("second request was let through")
''')

bug("c07-write-ack", "C07", "a device error as the answer to writing the time",
    "a one-byte answer to writing the time is always taken as its acknowledgement",
    [("elgas/connection.py", """            if len(response.data) == 1:
""", """            if (
                len(response.data) == 1
                and response.service is not constants.ServiceNumber.WRITE_DEVICE_TIME
            ):
""")], '''
c = conn()
c.send(application.WriteTimeRequest(password="abcdef", device_time=dt.datetime(2023, 1, 1)))
c.receive_data(wire(S.WRITE_DEVICE_TIME, b"\\x01"))
try:
    r = c.next_event()
except exceptions.WrongPasswordError:
    pass
else:
    raise SystemExit("delivered %r" % (r,))
''')

bug("c07-error-by-value", "C07", "a device error whose name maps to two bits swapped: bits 5 and 6",
    "a cipher key error (bit 5) is reported as wrong encryption keys when encryption is configured",
    [("elgas/connection.py", """        raise exceptions.CipherKeyError()
""", """        raise exceptions.WrongEncryptionKeysError()
""")], '''
c = conn()
c.send(application.ReadTimeRequest())
c.receive_data(wire(S.READ_DEVICE_TIME, b"\\x20"))
try:
    c.next_event()
except exceptions.CipherKeyError:
    pass
except exceptions.WrongEncryptionKeysError:
    raise SystemExit("reported as another error")
''')

bug("c08-empty-plain", "C08", "a request without payload (reading the time) with a key configured",
    "requests without payload leave as plain frames although a key is configured",
    [("elgas/connection.py", """        if self.cipher_context:
            # replace""", """        if self.cipher_context and application_data:
            # replace""")], '''
c = conn(encryption_key=b"k" * 16, encryption_key_id=2)
w = utils.return_characters(c.send(application.ReadTimeRequest()))
assert w[2] == 0x85, w.hex()
''')

bug("c08-padding-in-block", "C08", "a payload length with (length + 2) % 16 == 15",
    "the padding is one byte short of a block when exactly one byte is missing, so nothing can be encrypted for these lengths",
    [("elgas/security.py", """        to_pad = 16 - rest
        padding = bytearray()
        for _ in range(0, to_pad):
""", """        to_pad = 16 - rest
        padding = bytearray()
        for _ in range(0, to_pad if to_pad > 1 else 17):
"""), ("elgas/security.py", """        original_length = int.from_bytes(header[:2], "little")
""", """        original_length = int.from_bytes(header[:2], "little")
        if len(encrypted) - original_length > 18:
            raise ValueError("There is more padding than one block")
""")], '''
ctx = security.CipherContext(security.EncryptionKeyId(2), b"k" * 16)
for n in range(64):
    p = bytes(range(n))
    assert ctx.decrypt(ctx.encrypt(p)) == p, n
    assert len(ctx.encrypt(p)) == 3 + (n + 2 + 15) // 16 * 16, n
''')

bug("c09-utf8-password", "C09", "a password containing a character outside ASCII",
    "the archive request encodes the password as UTF-8, which shifts all fields behind it",
    [("elgas/application.py", """        out.extend(utils.pad_password(self.password).encode("latin-1"))
        out.append(self.archive)
        out.extend(self.oldest_record_id.to_bytes(4, "little"))
""", """        out.extend(utils.pad_password(self.password).encode())
        out.append(self.archive)
        out.extend(self.oldest_record_id.to_bytes(4, "little"))
""")], '''
r = application.ReadArchiveRequest(password="abcde\\xe9", archive=constants.Archive(1), amount=2, oldest_record_id=3)
b = r.to_bytes()
assert len(b) == 17 and b[:6] == b"abcde\\xe9" and b[10] == 1, b
''')

bug("c09-amount-clamp", "C09", "more than 255 records requested by time",
    "the amount of records in an archive-by-time request is clamped to 255 and silently truncated",
    [("elgas/application.py", """        out.append(self.archive)
        out.extend(self.amount.to_bytes(2, "little"))
""", """        out.append(self.archive)
        out.extend(min(self.amount, 0x7FFF).to_bytes(2, "little"))
""")], '''
for n in (1, 255, 256, 32767, 32768, 65535):
    b = application.ReadArchiveByTimeRequest(password="abcdef", archive=constants.Archive(1), amount=n,
                                             oldest_timestamp=dt.datetime(2020, 1, 1)).to_bytes()
    assert b[11:13] == n.to_bytes(2, "little"), n
''')

bug("c10-strip-zeroes", "C10", "an archive response whose record data ends in zero bytes",
    "trailing zero bytes of the record data of an archive response are dropped",
    [("elgas/application.py", """    service: ClassVar[constants.ServiceNumber] = constants.ServiceNumber.READ_ARCHIVES

    archive: constants.Archive
    oldest_record_id: int
    data: bytes
""", """    service: ClassVar[constants.ServiceNumber] = constants.ServiceNumber.READ_ARCHIVES

    archive: constants.Archive
    oldest_record_id: int
    data: bytes = attr.ib(converter=lambda data: data[: len(data.rstrip(b"\\x00")) + 3])
""")], '''
for d in (b"", b"abc", b"abc\\x00\\x00\\x00", b"abc" + bytes(4), bytes(9)):
    r = application.ReadArchiveResponse.from_bytes(b"\\x01\\x01\\x00\\x00\\x00" + d)
    assert bytes(r.data) == d, d
''')

bug("c11-nibbles", "C11", "a byte with a hexadecimal digit in a device timestamp",
    "BCD digits are combined arithmetically, so bytes like 0x1A are accepted",
    [("elgas/utils.py", """    chars = data.hex()
    return int(chars)
""", """    number = 0
    for byte in data:
        number = number * 100 + (byte >> 4) * 10 + (byte & 0x0F)
    return number
""")], '''
for i in (0, 1, 2, 3, 4, 5):
    b = bytearray.fromhex("010101010101")
    b[i] = 0x0A
    try:
        r = utils.bytes_to_datetime(bytes(b))
    except ValueError:
        continue
    raise SystemExit("accepted as %r" % (r,))
''')

bug("c11-century", "C11", "a timestamp of the years 2070 to 2099",
    "two-digit years from 70 on are decoded into the previous century",
    [("elgas/utils.py", """    year = from_bcd(data[5:]) + 2000
""", """    year = from_bcd(data[5:])
    year += 1900 if year >= 70 else 2000
""")], '''
for y in range(2000, 2100):
    t = dt.datetime(y, 5, 6, 7, 8, 9)
    assert utils.bytes_to_datetime(utils.datetime_to_bytes(t))[0] == t, y
''')
