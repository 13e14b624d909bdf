"""Reference session: what a stream of bytes means to a session waiting for `kind` (None: idle)."""
from mc import ref, sut
from mc.core import fail, hx

SERVICE_KIND = {v: k for k, v in ref.KINDS.items()}


def interpret(seg, kind, enc):
    """Meaning of one delimited segment: (what, kind, payload)
    'junk' not usable; 'answer' answers the outstanding request; 'deverr' device error for it;
    'other' a usable response of another kind (or unsolicited), 'odd' right kind but undecodable."""
    f = ref.parse_frame(ref.unstuff(seg))
    if f is None or f["type"] not in (ref.RESPONSE, ref.ENC_RESPONSE):
        return ("junk", None, None)
    k = SERVICE_KIND.get(f["service"])
    if k is None:
        return ("junk", None, None)
    data = f["data"]
    if f["type"] == ref.ENC_RESPONSE:
        if not enc:
            return ("junk", None, None)
        data = ref.open_sealed(data, sut.KEY, sut.KEY_ID)
        if data is None:
            return ("junk", None, None)
    if k != kind:
        return ("other", k, data)
    if len(data) == 1 and data[0]:
        return ("deverr", k, data)
    if ref.decode_response(k, data) is None:
        return ("odd", k, data)
    return ("answer", k, data)


def device_error(e):
    return type(e).__name__ in ref.ERROR_BITS


def drain(c, limit=20):
    """Poll until more data is needed (or an answer came, or limit). List of poll results."""
    out = []
    for _ in range(limit):
        r = sut.poll(c)
        out.append(r)
        if r[0] == "need":
            break
    return out


def must_not_deliver(stream, kind, enc, results, what):
    """C03: whatever was delivered must be encoded by an intact segment of the stream."""
    good = []
    errs = set()
    for s in ref.segments(stream)[0]:
        m = interpret(s, kind, enc)
        if m[0] in ("answer", "odd"):
            good.append(m)
        if m[2] is not None and len(m[2]) == 1:
            errs |= set(ref.error_names(m[2][0]))
    for r, v in results:
        if r == "answer":
            if not good:
                fail("%s: delivered %r from damaged bytes %s" % (what, v, hx(stream)))
            m = good.pop(0)
            if m[0] == "answer":
                sut.check_answer(m[1], m[2], v, what)
        elif r == "error" and device_error(v) and type(v).__name__ not in errs:
            fail("%s: device error %s reported from damaged bytes %s" % (what, type(v).__name__, hx(stream)))
    return bool(good) or any(r == "answer" for r, _ in results)
