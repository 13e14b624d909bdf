"""Thin adapters around the public API of elgas used by several checks (imported after load_target)."""
import datetime as dt

from mc import ref
from mc.core import fail

KEY = bytes(range(0x30, 0x40))
KEY_ID = 3
PW = "secpw7"
T0 = dt.datetime(2023, 11, 5, 17, 42, 9)

REQ_ARGS = {
    "values": {}, "time": {}, "wtime": dict(time=T0), "params": dict(object_count=7, buffer_length=1024),
    "arch": dict(archive=1, oldest=0x01020304, amount=5), "archt": dict(archive=3, amount=9, time=T0),
}

# a valid response payload per kind; contains terminator, escape bytes and zeroes
TIMEB = ref.time_bytes(T0, True, True)
RESP = {
    "values": TIMEB + b"\x0d\x1b\x8d\x00\x02\xfe" + b"\x07" + bytes(range(8)) + bytes(range(8, 16)) + b"\x1b\x0e",
    "time": TIMEB + b"\x00" + b"\x0d\x1b" + b"\xaa\xbb",
    "wtime": b"\x00",
    "params": b"\x01\x00\x02\x00\x01" + b"\x1b\x0f\x0d\x8d",
    "arch": b"\x01\x04\x03\x02\x01" + b"\x0d\x0d\x1b",
    "archt": b"\x03\x0d\x1b\x8d\x00" + b"\x00\x8d\x0e",
}
RESP_ALT = {
    "values": TIMEB + b"\x07" + bytes(16) + b"\xff\xff",
    "time": ref.time_bytes(dt.datetime(2001, 2, 3, 4, 5, 6)) + b"\x01\x02\x03",
    "wtime": b"\x00\x00",
    "params": b"\x02\x00\x00\x00\x00" + b"x",
    "arch": b"\x02\x00\x00\x00\x80" + b"y",
    "archt": b"\x04\x01\x00\x00\xff" + b"z",
}


def mods():
    from elgas import application, client, connection, constants, exceptions, frames, state, utils
    return dict(application=application, client=client, connection=connection, constants=constants,
                exceptions=exceptions, frames=frames, state=state, utils=utils)


def conn(enc=False, key=None, key_id=None, pw=None, addr=(0, 0, 0, 0), password_id=810):
    from elgas import connection
    key, key_id, pw = key or KEY, KEY_ID if key_id is None else key_id, PW if pw is None else pw
    k = dict(encryption_key=key, encryption_key_id=key_id) if enc else {}
    return connection.ElgasConnection(source_address_1=addr[2], source_address_2=addr[3], destination_address_1=addr[0],
                                      destination_address_2=addr[1], password=pw, password_id=password_id, **k)


def request(kind, pw=None, **over):
    pw = PW if pw is None else pw
    from elgas import application as a, constants
    args = dict(REQ_ARGS[kind], **over)
    if kind == "values":
        return a.ReadInstantaneousValuesRequest(password=pw)
    if kind == "time":
        return a.ReadTimeRequest()
    if kind == "wtime":
        return a.WriteTimeRequest(password=pw, device_time=args["time"], **({"cryout": args["cryout"]} if "cryout" in args else {}))
    if kind == "params":
        return a.ReadDeviceParametersRequest(password=pw, object_count=args["object_count"], buffer_length=args["buffer_length"])
    if kind == "arch":
        return a.ReadArchiveRequest(password=pw, archive=arch(args["archive"]), amount=args["amount"], oldest_record_id=args["oldest"])
    if kind == "archt":
        return a.ReadArchiveByTimeRequest(password=pw, archive=arch(args["archive"]), amount=args["amount"], oldest_timestamp=args["time"])
    raise KeyError(kind)


def arch(n):
    from elgas import constants
    try:
        return constants.Archive(n)
    except ValueError:
        return n


def response_wire(kind, payload, enc=False, key=None, key_id=None, dst=(0, 0), src=(1, 2), service=None):
    s = ref.KINDS[kind] if service is None else service
    key, key_id = key or KEY, KEY_ID if key_id is None else key_id
    if enc:
        return ref.wire(ref.ENC_RESPONSE, s, ref.seal(payload, key, key_id), dst=dst, src=src)
    return ref.wire(ref.RESPONSE, s, payload, dst=dst, src=src)


def need_data(x):
    from elgas import state
    return x is state.NEED_DATA


def is_answer(x):
    return x is not None and not need_data(x)


def check_answer(kind, payload, got, what=""):
    """Fail unless got is the decoded answer of kind encoded by payload."""
    exp = ref.decode_response(kind, payload)
    if exp is None:
        fail("%s: an undecodable payload was delivered as %r" % (what, got))
    if type(got).__name__ != ref.RESPONSE_CLASS[kind]:
        fail("%s: expected a %s, got %r" % (what, ref.RESPONSE_CLASS[kind], got))
    for name, v in exp.items():
        g = getattr(got, name)
        if isinstance(v, bytes):
            g = bytes(g)
        if g != v or (isinstance(v, bool) and not isinstance(g, (bool, int))):
            fail("%s: field %s is %r, the device sent %r" % (what, name, g, v))


def poll(c):
    """('need',) | ('answer', pdu) | ('error', exc).  Other exceptions propagate (a violation)."""
    from elgas import exceptions
    try:
        x = c.next_event()
    except exceptions.ElgasError as e:
        return ("error", e)
    if need_data(x):
        return ("need", None)
    return ("answer", x)


def decode_request(wirebytes, enc=False, key=None, key_id=None):
    """(frame dict, request payload) from what a session put on the wire; fails if it is malformed."""
    segs, rest = ref.segments(wirebytes)
    if len(segs) != 1 or rest:
        fail("request on the wire is not exactly one delimited telegram: %s" % bytes(wirebytes).hex())
    f = ref.parse_frame(ref.unstuff(segs[0]))
    if f is None:
        fail("request on the wire is not a well formed frame: %s" % bytes(wirebytes).hex())
    if f["type"] != (ref.ENC_REQUEST if enc else ref.REQUEST):
        fail("request leaves with frame type %02x" % f["type"])
    data = f["data"]
    if enc:
        data = ref.open_sealed(data, key or KEY, KEY_ID if key_id is None else key_id)
        if data is None:
            fail("request payload cannot be decrypted by an independent implementation")
    return f, data


def check_request(kind, wirebytes, enc=False, pw=None, **over):
    f, data = decode_request(wirebytes, enc)
    if f["service"] != ref.KINDS[kind]:
        fail("request for %s leaves with service %02x" % (kind, f["service"]))
    if not ref.matches(ref.request_layout(kind, PW if pw is None else pw, **dict(REQ_ARGS[kind], **over)), data):
        fail("request for %s has payload %s" % (kind, data.hex()))
    return f, data
