"""Planted bugs, eighth round: limits of the configuration, and calls which change what they are given or depend on earlier ones."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []
U, F, C, T, S, A, P, SEC, CL = ("elgas/" + x + ".py" for x in ("utils", "frames", "connection", "transport", "state", "application", "parser", "security", "client"))


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


CONF = '''
OK = dict(source_address_1=1, source_address_2=2, destination_address_1=3, destination_address_2=4, password="abcdef", password_id=810)


def refused(**k):
    try:
        connection.ElgasConnection(**dict(OK, **k))
    except Exception:
        return True
    return False


assert not refused()
'''

bug("c26-top-address", "C26", "the highest measuring place, 65535, configured as the destination",
    "a valid destination address is refused",
    [(C, '''    destination_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]''', '''    destination_address_1: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.lt(65535)]''')], CONF + '''
assert not refused(destination_address_1=65535) and not refused(destination_address_1=65534)
assert refused(destination_address_1=65536)
''')

bug("c26-wide-place", "C26", "a second source address of 256 or more",
    "a second address which does not fit in one byte is accepted when the session is created",
    [(C, '''    source_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(255)]''', '''    source_address_2: int = attr.ib(
        validator=[attr.validators.ge(0), attr.validators.le(65535)]''')], CONF + '''
assert not refused(source_address_2=255)
assert refused(source_address_2=256) and refused(source_address_2=70000)
''')

bug("c26-service-password", "C26", "a password id of 800, just below the passwords of the device",
    "a password id which does not exist is accepted",
    [(C, "        validator=[attr.validators.ge(801), attr.validators.le(849)]\n", "        validator=[attr.validators.gt(799), attr.validators.le(849)]\n")], CONF + '''
assert not refused(password_id=801) and not refused(password_id=849)
assert refused(password_id=800) and refused(password_id=850)
''')

bug("c26-wrapped-id", "C26", "a password id outside 801 to 849 whose low two digits are inside 1 to 49",
    "a password id is reduced modulo one hundred before it is checked, and ones which do not exist are accepted",
    [(C, '''        validator=[attr.validators.ge(801), attr.validators.le(849)]
''', '''        converter=lambda number: 800 + number % 100,
        validator=[attr.validators.ge(801), attr.validators.le(849)],
''')], CONF + '''
assert not refused(password_id=801) and not refused(password_id=849)
for i in (701, 1, 901, 1849, 10801, -51):
    assert refused(password_id=i), i
''')

bug("c26-folded-address", "C26", "a second address outside 8 bits assigned after the session was created",
    "an address which does not fit is sent reduced to 8 bits, so the request goes to another device",
    [(F, "        out.append(self.destination_address_2)\n", "        out.append(self.destination_address_2 & 0xFF)\n")], CONF + '''
for a, b in ((3, 256), (3, 511), (3, -1)):
    c = connection.ElgasConnection(**OK)
    c.destination_address_1, c.destination_address_2 = a, b
    try:
        w = c.send(application.ReadTimeRequest())
    except Exception:
        continue
    raise SystemExit("%r leaves" % w)
''', count=2)

bug("c26-long-password", "C26", "a password of more than six characters given to a client",
    "a password which is too long is cut to six characters and accepted",
    [(C, '    password: str = attr.ib(validator=[attr.validators.max_len(6)])\n', '''    password: str = attr.ib(
        converter=lambda text: text[:6], validator=[attr.validators.max_len(6)]
    )
''')], CONF + '''
assert refused(password="abcdefg") and refused(password="abcdef" * 3)
''')

bug("c27-stuff-in-place", "C27", "a bytearray given to the function which escapes a telegram",
    "escaping a telegram takes the terminator off the caller's own buffer",
    [(U, '    workable_data = data[:-1]\n', '''    workable_data = data
    if isinstance(data, bytearray):
        del workable_data[-1:]
    else:
        workable_data = data[:-1]
''')], '''
b = bytearray(b"\\x02\\x1b\\x8d\\x0d\\x05\\x0d")
assert utils.escape_characters(b) == b"\\x02\\x1b\\x1b\\x1b\\x0f\\x1b\\x0e\\x05\\x0d"
assert b == b"\\x02\\x1b\\x8d\\x0d\\x05\\x0d"
''')

bug("c27-unstuff-in-place", "C27", "a bytearray given to the function which unescapes a telegram",
    "unescaping a telegram empties the caller's own buffer",
    [(U, '    in_data = bytearray(data)\n', '    in_data = data if isinstance(data, bytearray) else bytearray(data)\n')], '''
b = bytearray(b"\\x02\\x1b\\x0f\\x0d")
assert utils.return_characters(b) == b"\\x02\\x8d\\x0d"
assert b == b"\\x02\\x1b\\x0f\\x0d"
''')

bug("c27-parse-in-place", "C27", "parameter data given to the parser as a bytearray which is used again afterwards",
    "parsing the parameters consumes the caller's own buffer, and parsing it again finds nothing",
    [(P, "        working_data = bytearray(self.data or data)\n", """        working_data = self.data or data
        if not isinstance(working_data, bytearray):
            working_data = bytearray(working_data or b"")
"""),
     (P, "            working_data = working_data[length - 3 :]\n", "            del working_data[: length - 3]\n")], REC + '''
b = bytearray(record(P.TIMER, TIMER) + record(P.BINARY, BIN))
keep = bytes(b)
one = parser.ScadaParameterParser().parse(b)
assert b == keep
assert parser.ScadaParameterParser().parse(b) == one and len(one) == 2
''')

bug("c27-key-memo", "C27", "two contexts with the same key id and different keys, used one after the other",
    "the cipher is kept by key id, so data is encrypted with the key of another context",
    [(SEC, '''def encrypt(data: bytes, key: bytes, iv: bytes) -> bytes:
    encryptor = Cipher(
        algorithms.AES(key), modes.CBC(initialization_vector=iv)
    ).encryptor()
''', '''_CIPHERS = {}


def encrypt(data: bytes, key: bytes, iv: bytes) -> bytes:
    cipher = _CIPHERS.setdefault(
        iv[:1], Cipher(algorithms.AES(key), modes.CBC(initialization_vector=iv))
    )
    encryptor = cipher.encryptor()
''')], '''
k1, k2 = bytes(16), bytes(15) + b"\\x01"
for k in (k1, k2, k1):
    c = security.CipherContext(security.EncryptionKeyId.USER_1, k)
    assert c.decrypt(c.encrypt(b"hello")) == b"hello"
''')

bug("c27-encode-once", "C27", "a request object which is changed and encoded again",
    "a request keeps the bytes of its first encoding, and later changes of it are not sent",
    [(A, '''    def to_bytes(self) -> bytes:
        out = bytearray()
        out.extend(utils.pad_password(self.password).encode("latin-1"))
        out.extend(self.object_count.to_bytes(2, "little"))
        out.extend(self.buffer_length.to_bytes(2, "little"))

        return bytes(out)
''', '''    def to_bytes(self) -> bytes:
        if "_encoded" not in self.__dict__:
            out = bytearray()
            out.extend(utils.pad_password(self.password).encode("latin-1"))
            out.extend(self.object_count.to_bytes(2, "little"))
            out.extend(self.buffer_length.to_bytes(2, "little"))
            self._encoded = bytes(out)

        return self._encoded
''')], '''
r = application.ReadDeviceParametersRequest(password="abcdef", object_count=1, buffer_length=1024)
assert r.to_bytes()[10:] == b"\\x01\\x00\\x00\\x04"
r.object_count = 513
assert r.to_bytes()[10:] == b"\\x01\\x02\\x00\\x04"
''')

bug("c27-read-time-memo", "C27", "two times which differ only in the daylight-saving bits, decoded one after the other",
    "decoded times are remembered by their date and time without the daylight-saving bits, so the flags of an earlier telegram come back",
    [(U, '''    hour = from_bcd(hour_byte)
    is_dst = bool(hour_data & 0b10000000)
    supports_dst = bool(hour_data & 0b01000000)
''', '''    hour = from_bcd(hour_byte)
    is_dst, supports_dst = _FLAGS.setdefault(
        (bytes(data[:2]), hour, bytes(data[3:])),
        (bool(hour_data & 0b10000000), bool(hour_data & 0b01000000)),
    )
'''), (U, "def bytes_to_datetime(data: bytes)", "_FLAGS = {}\n\n\ndef bytes_to_datetime(data: bytes)")], '''
t = dt.datetime(2023, 11, 5, 17, 42, 9)
raw = utils.datetime_to_bytes(t)
for flags, want in ((0, (t, False, False)), (0x80, (t, True, False)), (0x40, (t, False, True)), (0xC0, (t, True, True)), (0, (t, False, False))):
    assert utils.bytes_to_datetime(raw[:2] + bytes([raw[2] | flags]) + raw[3:]) == want, flags
''')

bug("c27-import-into", "C27", "an exported time window imported twice, the first import having been changed by its user",
    "imported time windows are remembered by name, and importing the data again gives the object of the first import",
    [("elgas/parameters/time_window.py", """        return TimeWindow(**data)""", """        known = self.__class__.__dict__.get("_known") or {}
        self.__class__._known = known
        key = (data["number"], data["name"], tuple(data["rows"]))
        if key not in known or any(
            getattr(known[key], k) != v for k, v in data.items() if k != "rows"
        ):
            known[key] = TimeWindow(**data)
        return known[key]""")], REC + '''
from elgas.parameters.time_window import TimeWindow, TimeWindowSchema
import inspect
f = attr.fields_dict(TimeWindow)
d = {n: (["a", "b"] if n == "rows" else "x" if "name" in n or "text" in n else 1) for n in f}
for n in ("in_binary_archive", "in_data_archive"):
    d[n] = True
one = TimeWindowSchema().load(d)
one.rows.append("changed")
two = TimeWindowSchema().load(d)
assert two.rows == ["a", "b"], two.rows
''')

bug("c27-half-escape", "C27", "a telegram that ends in the middle of an escape sequence, unescaped before another one",
    "unescaping works in one buffer for all calls, which is emptied only when a call succeeds: what a refused telegram left behind comes out in front of the next",
    [(U, """    in_data = bytearray(data)
    out = bytearray()
    while in_data:""", """    in_data = bytearray(data)
    out = _UNESCAPED
    while in_data:"""), (U, """            out.append(byte)

    return bytes(out)
""", """            out.append(byte)

    result = bytes(out)
    out.clear()
    return result
"""), (U, "def return_characters(data: bytes)", "_UNESCAPED = bytearray()\n\n\ndef return_characters(data: bytes)")], '''
good = b"\\x02\\x1b\\x0f\\x0d"
assert utils.return_characters(good) == b"\\x02\\x8d\\x0d"
try:
    utils.return_characters(b"\\x02\\x05\\x1b")
except Exception:
    pass
assert utils.return_characters(good) == b"\\x02\\x8d\\x0d"
''')

bug("c06-foreign-error", "C06", "a device error for reading an archive by time while an archive read by record number is outstanding",
    "the error of another request ends the outstanding one",
    [(S, "AWAITING_READ_ARCHIVE_RESPONSE: {application.ReadArchiveResponse: IDLE},", """AWAITING_READ_ARCHIVE_RESPONSE: {
        application.ReadArchiveResponse: IDLE,
        # both services read the same archives
        application.ReadArchiveByTimeResponse: AWAITING_READ_ARCHIVE_RESPONSE,
    },""")], '''
c = conn()
c.send(application.ReadArchiveRequest(password="abcdef", archive=constants.Archive(1), amount=1, oldest_record_id=1))
c.receive_data(wire(S.READ_ARCHIVES_BY_DATE, b"\\x02"))
try:
    c.next_event()
except exceptions.LocalElgasProtocolError:
    pass
''')

bug("c08-broadcast-clear", "C08", "a key configured and the destination address 0.255",
    "requests to that address leave unencrypted although a key is configured",
    [(C, "        if self.cipher_context:\n            # replace", "        if self.cipher_context and (\n            self.destination_address_1 or self.destination_address_2 != 255\n        ):\n            # replace")], '''
for a, b in ((0, 0), (1, 255), (0, 255)):
    c = connection.ElgasConnection(source_address_1=0, source_address_2=0, destination_address_1=a, destination_address_2=b, password="abcdef",
                                   password_id=801, encryption_key=bytes(16), encryption_key_id=3)
    assert c.send(application.ReadTimeRequest())[2] == 0x85, (a, b)
''')

bug("c09-first-password", "C09", "a client whose password is changed after it has read the values once",
    "the request for the values is made once per client and keeps the first password",
    [(CL, "        request = application.ReadInstantaneousValuesRequest(password=self.password)\n", """        request = self.__dict__.setdefault(
            "_values_request",
            application.ReadInstantaneousValuesRequest(password=self.password),
        )
""")], '''
v = wire(S.READ_VALUES, T[::-1][:0] + bytes.fromhex("094217051123") + bytes(24))
link = Link(v, v)
c = client.ElgasClient(transport=link, password="abcdef", password_id=801)
c.connect()
c.read_instantaneous_values()
c.password = "uvwxyz"
c.read_instantaneous_values()
assert b"abcdef" in link.sent[0] and b"uvwxyz" in link.sent[1], link.sent
''')
