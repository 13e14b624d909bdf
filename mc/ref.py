"""Independent reference models.  Nothing in this file imports elgas."""
import datetime as dt

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

# ------------------------------------------------------------------ stuffing
SUBST = {0x0D: b"\x1b\x0e", 0x1B: b"\x1b\x1b", 0x8D: b"\x1b\x0f"}
BACK = {0x0E: 0x0D, 0x1B: 0x1B, 0x0F: 0x8D}
_TABLE = [SUBST.get(i, bytes([i])) for i in range(256)]


def stuff(frame):
    assert frame[-1] == 0x0D
    return b"".join(_TABLE[b] for b in frame[:-1]) + b"\x0d"


def unstuff(wire):
    """Strict about nothing: an unknown escape stays as it is (as devices do)."""
    out = bytearray()
    it = iter(range(len(wire)))
    i = 0
    while i < len(wire):
        b = wire[i]
        if b == 0x1B and i + 1 < len(wire):
            n = wire[i + 1]
            if n in BACK:
                out.append(BACK[n])
            else:
                out += bytes([b, n])
            i += 2
        else:
            out.append(b)
            i += 1
    return bytes(out)


# ------------------------------------------------------------------ frames
REQUEST, ENC_REQUEST, RESPONSE, ENC_RESPONSE = 0x84, 0x85, 0x86, 0x87

SERVICES = dict(READ_VALUES=0x64, WRITE_VALUES=0x65, SEARCH_ARCHIVE_POINTERS_OLD=0x67,
                SEARCH_ARCHIVE_POINTERS=0x7B, READ_ARCHIVES_OLD=0x68, READ_ARCHIVES=0x7C,
                READ_DEVICE_TIME=0x6C, READ_SCADA_PARAMETERS=0x70, WRITE_DEVICE_TIME=0x71,
                GROUP_WRITE_VALUES=0x77, GROUP_READ_VALUES=0x79, CALL=0x87,
                READ_ARCHIVES_BY_DATE_OLD=0x91, READ_ARCHIVES_BY_DATE=0x7D)

# kind of exchange -> service byte
KINDS = {"values": 0x64, "time": 0x6C, "wtime": 0x71, "params": 0x70, "arch": 0x7C, "archt": 0x7D}


def redundancy(body):
    lrc = chk = drc = 0
    for b in body:
        lrc ^= b
        chk = (chk + b) % 256
        drc = ((drc * 2) % 256 + drc // 128) ^ b
    return bytes([lrc, chk, drc])


def frame(ftype, service, data, dst=(0, 0), src=(0, 0), length=None, red=None):
    n = len(data) + 15 if length is None else length
    body = bytes([0xFE, ftype, service]) + n.to_bytes(2, "little") + dst[0].to_bytes(2, "little") + bytes([dst[1]]) \
        + src[0].to_bytes(2, "little") + bytes([src[1]]) + bytes(data)
    return b"\x02" + body + (redundancy(body) if red is None else red) + b"\x0d"


def parse_frame(raw):
    """dict of a well formed frame, or None."""
    if len(raw) < 16 or raw[0] != 0x02 or raw[1] != 0xFE or raw[-1] != 0x0D:
        return None
    if int.from_bytes(raw[4:6], "little") != len(raw) - 1:
        return None
    if redundancy(raw[1:-4]) != raw[-4:-1]:
        return None
    return dict(type=raw[2], service=raw[3], dst=(int.from_bytes(raw[6:8], "little"), raw[8]),
                src=(int.from_bytes(raw[9:11], "little"), raw[11]), data=bytes(raw[12:-4]))


def wire(ftype, service, data, **k):
    return stuff(frame(ftype, service, data, **k))


def segments(stream):
    """Delimited pieces of a byte stream (each ends in the terminator), and the unterminated rest."""
    out, cur = [], bytearray()
    for b in stream:
        cur.append(b)
        if b == 0x0D:
            out.append(bytes(cur))
            cur = bytearray()
    return out, bytes(cur)


# ------------------------------------------------------------------ encryption
def crc16(data):
    """Modbus CRC, bit by bit; low byte first on the wire."""
    crc = 0xFFFF
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return crc.to_bytes(2, "little")


def _ecb(key):
    return Cipher(algorithms.AES(key), modes.ECB())


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def cbc_enc(data, key):
    e = _ecb(key).encryptor()
    prev, out = key, b""
    for i in range(0, len(data), 16):
        prev = e.update(_xor(data[i:i + 16], prev))
        out += prev
    return out


def cbc_dec(data, key):
    d = _ecb(key).decryptor()
    prev, out = key, b""
    for i in range(0, len(data), 16):
        out += _xor(d.update(data[i:i + 16]), prev)
        prev = data[i:i + 16]
    return out


def seal(data, key, key_id, pad=b"\x5a", length=None, crc=None, header_id=None):
    """length/crc/header_id override what goes on the wire (to build inconsistent messages)."""
    n = len(data) if length is None else length
    kid = key_id if header_id is None else header_id
    padding = (pad * 16)[: -(len(data) + 2) % 16]
    head = n.to_bytes(2, "little") + bytes([kid])
    inner = bytes(data) + padding
    c = crc16(head + inner) if crc is None else crc
    return head + cbc_enc(inner + c, key)


def seal_plain(data, key_id, pad=b"\x5a"):
    """What is inside a seal: data, padding and inner CRC."""
    head = len(data).to_bytes(2, "little") + bytes([key_id])
    inner = bytes(data) + (pad * 16)[: -(len(data) + 2) % 16]
    return inner + crc16(head + inner)


def open_sealed(payload, key, key_id):
    """The request/response inside, or None if it must not be trusted."""
    if len(payload) < 3 or (len(payload) - 3) % 16 or len(payload) == 3:
        return None
    head, body = payload[:3], payload[3:]
    if head[2] != key_id:
        return None
    inner = cbc_dec(body, key)
    if crc16(head + inner[:-2]) != inner[-2:]:
        return None
    n = int.from_bytes(head[:2], "little")
    if n > len(inner) - 2:
        return None
    return inner[:n]


def open_ex(payload, key, key_id):
    """(data, padding, crc) of a consistent sealed payload, or None."""
    data = open_sealed(payload, key, key_id)
    if data is None:
        return None
    inner = cbc_dec(payload[3:], key)
    return data, inner[len(data):-2], inner[-2:]


# ------------------------------------------------------------------ time
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def month_days(y, m):
    return 29 if m == 2 and (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else DAYS[m - 1]


def bcd(n):
    return (n // 10) * 16 + n % 10


def unbcd(b):
    return None if b >> 4 > 9 or b & 15 > 9 else (b >> 4) * 10 + (b & 15)


def time_bytes(t, dst=False, sup=False):
    return bytes([bcd(t.second), bcd(t.minute), bcd(t.hour) | (0x80 if dst else 0) | (0x40 if sup else 0),
                  bcd(t.day), bcd(t.month), bcd(t.year - 2000)])


def parse_time(b):
    """(datetime, dst, sup) or None."""
    if len(b) != 6:
        return None
    v = [unbcd(x) for x in (b[0], b[1], b[2] & 0x3F, b[3], b[4], b[5])]
    if None in v:
        return None
    s, mi, h, d, mo, y = v
    if s > 59 or mi > 59 or h > 23 or not 1 <= mo <= 12 or not 1 <= d <= month_days(2000 + y, mo):
        return None
    return dt.datetime(2000 + y, mo, d, h, mi, s), bool(b[2] & 0x80), bool(b[2] & 0x40)


# ------------------------------------------------------------------ request PDUs (two random password fillers: None)
def password_field(pw):
    raw = pw.encode("latin-1")
    return list(raw) + [0x21, 0x03, None, None]


def u(n, w):
    return list(n.to_bytes(w, "little"))


def request_layout(kind, pw, **a):
    """Expected request payload as a list of byte values; None where the byte is free."""
    if kind == "time":
        return []
    p = password_field(pw)
    if kind == "values":
        return p
    if kind == "wtime":
        return p + list(time_bytes(a["time"])) + [0x04]
    if kind == "params":
        return p + u(a["object_count"], 2) + u(a["buffer_length"], 2)
    if kind == "arch":
        return p + [a["archive"]] + u(a["oldest"], 4) + u(a["amount"], 2)
    if kind == "archt":
        return p + [a["archive"]] + u(a["amount"], 2) + list(time_bytes(a["time"]))
    raise KeyError(kind)


def matches(layout, got):
    return len(layout) == len(got) and all(e is None or e == g for e, g in zip(layout, got))


# ------------------------------------------------------------------ response PDUs
def decode_response(kind, d):
    """Expected attributes of the decoded answer, or None if d is not a valid payload for kind."""
    if kind == "wtime":
        return {}
    if kind == "time":
        t = parse_time(d[:6])
        if t is None or len(d) < 6:
            return None
        return dict(time=t[0], is_dst=t[1], device_supports_dst=t[2], data_access_result=d[6:7], extra_data=d[7:-2])
    if kind == "values":
        t = parse_time(d[:6])
        if t is None or len(d) < 25:
            return None
        n = len(d)
        return dict(current_time=t[0], is_dst=t[1], supports_dst=t[2], data=d[6:n - 19], data_access=d[n - 19],
                    status=d[n - 18:n - 10], summary_status=d[n - 10:n - 2], parameter_crc=d[n - 2:])
    if kind == "params":
        if len(d) < 5:
            return None
        return dict(object_number=d[0] + 256 * d[1], object_amount=d[2] + 256 * d[3], is_end=d[4] != 0, data=d[5:])
    if kind in ("arch", "archt"):
        if len(d) < 5 or d[0] > 10:
            return None
        return dict(archive=d[0], oldest_record_id=d[1] + 256 * d[2] + 65536 * d[3] + 16777216 * d[4], data=d[5:])
    raise KeyError(kind)


RESPONSE_CLASS = {"values": "ReadInstantaneousValuesResponse", "time": "ReadTimeResponse",
                  "wtime": "WriteTimeResponse", "params": "ReadDeviceParametersResponse",
                  "arch": "ReadArchiveResponse", "archt": "ReadArchiveByTimeResponse"}

ERROR_BITS = ["WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer", "DataError",
              "CipherKeyError", "WrongEncryptionKeysError", "WriteError"]


def error_names(byte):
    return [n for i, n in enumerate(ERROR_BITS) if byte >> i & 1]
