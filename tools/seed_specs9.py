"""Planted bugs, ninth round: imports that take what they should refuse, and more."""
import pathlib
import runpy

_two = runpy.run_path(str(pathlib.Path(__file__).with_name("seed_specs2.py"))) if "__file__" in globals() else None
H, REC = _two["H"], _two["REC"]
SPECS = []
U, F, C, T, S, A, P, SEC, CL = ("elgas/" + x + ".py" for x in ("utils", "frames", "connection", "transport", "state", "application", "parser", "security", "client"))
PA = "elgas/parameters/"


def bug(id, property, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=H + demo, **k))


LOAD = REC + '''
import marshmallow


def outcome(schema, data):
    try:
        return schema.load(data)
    except marshmallow.ValidationError as e:
        return e.messages


timer = ParameterFactory.from_bytes(P(TIMER_TYPE), TIMER)
'''.replace("P(TIMER_TYPE)", "P.TIMER")

bug("c28-timer-foreign", "C28", "a timer exported by something that calls one of its attributes by another name as well",
    "names which no timer has are dropped without a word when a timer is imported",
    [(PA + "timer.py", "    number = marshmallow.fields.Integer(required=True)\n", "    class Meta:\n        unknown = marshmallow.EXCLUDE\n\n    number = marshmallow.fields.Integer(\n        required=True\n    )\n")], LOAD + '''
s = ParameterSchemaFactory.by_parameter_id(P.TIMER)()
d = s.dump(timer)
assert s.load(d) == timer
d["in_hourly_archive"] = 1
assert "in_hourly_archive" in outcome(s, d)
''')

bug("c28-statistics-decimals", "C28", "exported statistics in which the number of decimals is missing",
    "the number of decimals may be missing on import and is then taken as absent on the device",
    [(PA + "statistics.py", "    decimals = marshmallow.fields.Integer(required=True, allow_none=True)\n\n    @post_load\n    def make_object(self, data, **kwargs):\n        return AnalogStatistics(**data)",
      "    decimals = marshmallow.fields.Integer(load_default=None, allow_none=True)\n\n    @post_load\n    def make_object(self, data, **kwargs):\n        return AnalogStatistics(**data)")], LOAD + '''
s = ParameterSchemaFactory.by_parameter_id(P.STATISTICS)()
names = set(s.fields)
for n in sorted(names):
    assert n in outcome(s, {k: "1" for k in names if k != n}), n
''')

bug("c28-window-rows", "C28", "an imported time window whose rows hold something that is no text",
    "rows of a time window are taken over whatever they are",
    [(PA + "time_window.py", "    rows = marshmallow.fields.List(marshmallow.fields.String, required=True)", "    rows = marshmallow.fields.List(marshmallow.fields.Raw, required=True)")], LOAD + '''
s = ParameterSchemaFactory.by_parameter_id(P.TIME_WINDOW)()
assert "rows" in outcome(s, {"rows": ["00112233445566778899", 5]})
assert "rows" not in outcome(s, {"rows": ["00112233445566778899"]})
''')

bug("c28-gas-partial", "C28", "exported system parameters in which a component of the gas composition is missing",
    "an incomplete gas composition is not refused as such: the import ends in a type error",
    [(PA + "system_parameters.py", "    gas_composition = marshmallow.fields.Nested(GasCompositionSchema, required=True)", "    gas_composition = marshmallow.fields.Nested(\n        GasCompositionSchema(partial=(\"c10h22\",)), required=True\n    )")], LOAD + '''
s = ParameterSchemaFactory.by_parameter_id(P.SYSTEM_PARAMETER)()
gas = ["co2", "n2", "combustion_heat", "relative_density", "h2", "h2s", "he", "h2o", "o2", "ar", "co", "c1h4", "c2h6", "c3h8", "ic4h10", "nc4h10", "ic5h12",
       "nc5h12", "c6h14", "c7h16", "c8h18", "c9h20", "c10h22"]
assert "gas_composition" not in outcome(s, {"gas_composition": {k: "1" for k in gas}})
for n in gas:
    assert n in outcome(s, {"gas_composition": {k: "1" for k in gas if k != n}})["gas_composition"], n
''')

bug("c28-series-left-out", "C28", "a configuration object without a series name",
    "the series name of a configuration object may be left out",
    [("elgas/integration.py", "    series_name = marshmallow.fields.String(required=True, allow_none=True)", "    series_name = marshmallow.fields.String(load_default=None, allow_none=True)")], '''
import marshmallow
from elgas import integration
s = integration.UtilitarianConfigurationSchema()
s.load({"objects": [{"parameter_type": 30, "data": {}, "series_name": None}]})
try:
    s.load({"objects": [{"parameter_type": 30, "data": {}}]})
except marshmallow.ValidationError as e:
    assert "series_name" in e.messages["objects"][0]
else:
    raise SystemExit("accepted")
''')

bug("c28-flag-default", "C28", "an exported binary input in which a flag is missing",
    "a flag missing from an exported binary input is taken as not set",
    [(PA + "binary.py", "    in_binary_archive = marshmallow.fields.Boolean(required=True)", "    in_binary_archive = marshmallow.fields.Boolean(load_default=False)")], LOAD + '''
s = ParameterSchemaFactory.by_parameter_id(P.BINARY)()
names = set(s.fields)
for n in sorted(names):
    assert n in outcome(s, {k: "1" for k in names if k != n}), n
''')

bug("c04-lone-blank", "C04", "a response whose first chunk is a single white-space byte that does not belong to it",
    "white space is dropped when it comes in a chunk of its own and spoils the response when it does not",
    [(C, '            if data == b"\\x0d" and len(self.buffer) == 0:', '            if len(data) == 1 and data.isspace() and not self.buffer:')], '''
w = wire(S.READ_DEVICE_TIME, bytes.fromhex("094217051123") + bytes(3))


def first(*chunks):
    c = conn()
    c.send(application.ReadTimeRequest())
    for x in chunks:
        c.receive_data(x)
    return type(c.next_event())


assert first(b"\\r", w) == first(b"\\r" + w)
for x in (b"\\n", b" ", b"\\t", b"\\x00"):
    assert first(x, w) == first(x + w), x
''')

bug("c21-context-by-prefix", "C21", "two sessions with the same key id whose keys differ in the last byte only",
    "the second session encrypts with the key of the first",
    [(C, """        return security.CipherContext(
            connection.encryption_key_id, connection.encryption_key
        )""", """        known = (connection.encryption_key_id, connection.encryption_key[:15])
        if known not in _CONTEXTS:
            _CONTEXTS[known] = security.CipherContext(
                connection.encryption_key_id, connection.encryption_key
            )
        return _CONTEXTS[known]"""), (C, "def create_cipher_context(", "_CONTEXTS = {}\n\n\ndef create_cipher_context(")], '''
def session(key):
    return connection.ElgasConnection(source_address_1=0, source_address_2=0, destination_address_1=0, destination_address_2=0, password="abcdef",
                                      password_id=801, encryption_key=key, encryption_key_id=3)


k1, k2 = bytes(16), bytes(15) + b"\\x01"
a, b = session(k1), session(k2)
for s, k in ((a, k1), (b, k2)):
    s.send(application.ReadTimeRequest())
    data = security.CipherContext(3, k).encrypt(bytes.fromhex("094217051123") + bytes(3))
    s.receive_data(utils.escape_characters(frames.EncryptedResponse(service=S.READ_DEVICE_TIME, destination_address_1=0, destination_address_2=0,
                                                                    source_address_1=0, source_address_2=0, data=data).to_bytes()))
    assert type(s.next_event()) is application.ReadTimeResponse
''')

bug("c14-page-again", "C14", "two pages in a row whose objects are byte for byte the same",
    "a page that is the same as the end of what was read before is taken for a repetition and left out",
    [(CL, "            total_parameter_data += response.data\n", "            if not response.data or not total_parameter_data.endswith(response.data):\n                total_parameter_data += response.data\n")], REC + '''
one = record(P.TIMER, TIMER)
pages = [b"\\x00\\x00\\x01\\x00\\x00" + one, b"\\x01\\x00\\x01\\x00\\x01" + one]
link = Link(*[wire(S.READ_SCADA_PARAMETERS, x) for x in pages])
c = client.ElgasClient(transport=link, password="abcdef", password_id=801)
c.connect()
assert len(c.read_parameters()) == 2
''')

bug("c08-long-answer", "C08", "an encrypted response of more than 65280 bytes",
    "the longest encrypted responses are refused, their check sum being taken over a shortened length",
    [(SEC, '        for_crc.extend(original_length.to_bytes(2, "little"))\n        for_crc.append(key_id)', '        for_crc.extend(min(original_length, 0xFF00).to_bytes(2, "little"))\n        for_crc.append(key_id)')], '''
x = security.CipherContext(3, bytes(range(16)))
for n in (0, 5, 65280, 65281, 65502):
    d = bytes(n)
    assert x.decrypt(x.encrypt(d)) == d, n
''')
