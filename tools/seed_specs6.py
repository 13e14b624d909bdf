"""Planted bugs, sixth round."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []
U, F, C, T, S, A, P, SEC, CL = ("elgas/" + x + ".py" for x in ("utils", "frames", "connection", "transport", "state", "application", "parser", "security", "client"))


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


bug("c01-block-unstuff", "C01", "a stuffed string of more than 32 KiB in which an escape pair lies across the 32 KiB border",
    "long strings are unstuffed in blocks, and an escape pair across a border is left as it is",
    [(U, '''    in_data = bytearray(data)
    out = bytearray()
''', '''    if len(data) > 0x8000 and data[0x7FFF:0x8000] == b"\\x1b" and data[0x7FFE:0x7FFF] != b"\\x1b":
        return return_characters(data[:0x7FFF]) + data[0x7FFF:0x8001] + return_characters(data[0x8001:])
    in_data = bytearray(data)
    out = bytearray()
''')], '''
for lead in range(3):
    s = b"A" * lead + b"\\x8d" * 20000 + b"\\x0d"
    assert utils.return_characters(utils.escape_characters(s)) == s, lead
s = b"A" * 0x7FFF + b"\\x1b" + b"\\x0d"
assert utils.return_characters(utils.escape_characters(s)) == s
''')

bug("c07-addressed-error", "C07", "a device error sent from address 0 to an address other than 0",
    "an error is not taken for one when it is sent from address 0 to a definite address",
    [(C, "            if len(response.data) == 1:\n", "            if len(response.data) == 1 and (response.source_address_1 or not response.destination_address_1):\n")], '''
for dst in (0, 5):
    for src in (0, 7):
        c = conn()
        c.send(application.WriteTimeRequest(password="secpw7", device_time=dt.datetime(2023, 1, 2)))
        f = frames.Response(service=S.WRITE_DEVICE_TIME, destination_address_1=dst, destination_address_2=0, source_address_1=src, source_address_2=0, data=b"\\x02")
        c.receive_data(utils.escape_characters(f.to_bytes()))
        try:
            r = c.next_event()
        except exceptions.SettingArchiveFull:
            continue
        raise SystemExit("delivered as %r" % (r,))
''')

bug("c10-status-archive-id", "C10", "a record id from 0xFF000000 up in an answer about the status archive",
    "the record ids of the status archive are read as signed numbers when their top byte is FF",
    [(A, """            oldest_record_id=oldest_record_id,
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest""", """            oldest_record_id=oldest_record_id - ((archive == 8 and oldest_record_id >> 24 == 0xFF) << 32),
            data=data,
        )


@attr.s(auto_attribs=True)
class ReadArchiveRequest""")], '''
for a in range(9):
    for i in (0, 1, 0x7FFFFFFF, 0x80000000, 0xFF000000, 0xFFFFFFFF):
        r = application.ReadArchiveByTimeResponse.from_bytes(bytes([a]) + i.to_bytes(4, "little") + b"x")
        assert r.oldest_record_id == i, (a, i, r)
''')

bug("c06-refused-clears", "C06", "part of the response has been received when another request is refused",
    "a request that is refused throws away what has been received of the response to the outstanding one",
    [(C, '''        previous_state = self.elgas_state.current_state
''', '''        previous_state = self.elgas_state.current_state
        self.buffer = bytearray()
''')], '''
c = conn()
c.send(application.ReadTimeRequest())
c.receive_data(TIME[:9])
try:
    c.send(application.ReadTimeRequest())
    raise SystemExit("sent")
except exceptions.LocalElgasProtocolError:
    pass
c.receive_data(TIME[9:])
assert isinstance(c.next_event(), application.ReadTimeResponse)
''')

bug("c02-length-cached", "C02", "a frame object that is serialised, gets another payload and is serialised again",
    "the length field is computed once for each frame object and kept when the payload changes",
    [(F, '''        out.extend(self.length.to_bytes(2, "little"))
''', '''        if "_length" not in self.__dict__:
            self._length = self.length
        out.extend(self._length.to_bytes(2, "little"))
''')], '''
for cls in (frames.Request, frames.Response, frames.EncryptedRequest, frames.EncryptedResponse):
    f = cls(service=S.READ_DEVICE_TIME, destination_address_1=1, destination_address_2=2, source_address_1=3, source_address_2=4, data=b"")
    f.to_bytes()
    f.data = b"other"
    assert cls.from_bytes(f.to_bytes()) == f, cls
''', count=2)

bug("c13-shared-list", "C13", "one parser used for a second list while the first result is still held",
    "a parser keeps one list of objects and empties it for the next list, also in the hands of the first caller",
    [(P, "        object_list = list()\n", "        object_list = self.__dict__.setdefault(\"_objects\", list())\n        object_list.clear()\n")], REC + '''
from elgas.parser import ScadaParameterParser
p = ScadaParameterParser()
one = p.parse(record(P.BINARY, BIN) * 3)
two = p.parse(record(P.BINARY, BIN))
assert len(one) == 3 and len(two) == 1, (len(one), len(two))
''')
