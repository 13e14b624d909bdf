"""C15 exporting and re-importing parameter objects loses nothing."""
import itertools
import json
import math
import struct

from mc import layouts as L
from mc.core import Family, fail, hx

PROP, LEVEL = "C15", "exploration"
RULE = ("every object type x every attribute x its border values (integers, flags, texts, every float exponent, absent optionals, rows), pairs of "
        "attributes, objects decoded from records, and whole configurations of up to 3 (thorough 4) objects; each is exported, written to JSON text, "
        "read back and loaded, and compared attribute by attribute and by class; non-trivial: one object or configuration round trip")
ASSUMPTIONS = ["floats are finite", "flags may come back as bool or as 0/1", "texts are any Unicode strings (the wire only has Latin-1)"]

EXTRA = {61: ["error_bit_order_in_actual_values", "error_bit_order_in_binary_archive_record", "error_bit_order_in_data_archive_record"],
         62: ["error_bit_order_in_actual_values", "error_bit_order_in_binary_archive_record", "error_bit_order_in_data_archive_record"]}


def enum(t):
    from elgas.parameters.enumerations import ParameterObjectType
    return ParameterObjectType(t)


def klass(t):
    from elgas.parameters.factory import ParameterFactory
    return ParameterFactory.object_map[enum(t)]


def schema(t):
    from elgas.parameters.factory import ParameterSchemaFactory
    return ParameterSchemaFactory.by_parameter_id(enum(t))()


def attributes(t):
    """(name, kind, size, optional) of every attribute."""
    out = [(f.name, f.kind if f.kind != "m" or f.arg[1] is None else "u", f.size or 1, f.opt) for f in L.layout(t)]
    return out + [(n, "u", 2, False) for n in EXTRA.get(t, [])]


def default(name, kind, n, k):
    if kind == "u":
        return (k * 37 + 5) % (1 << 8 * n)
    if kind == "m":
        return k % 2 == 0
    if kind == "text":
        return "text %d" % k
    if kind in ("f", "r"):
        return k * 0.25 + 0.1
    if kind == "hex":
        return "0a1b" * 4
    if kind == "ip":
        return "10.0.%d.255" % k
    if kind == "rows":
        return ["00112233445566778899", "ffffffffffffffffffff"]
    raise KeyError(kind)


def values(t, kind, n, opt):
    out = {"u": [0, 1, 255, (1 << 8 * n) - 1, 1 << (8 * n - 1)],
           "m": [False, True],
           "text": ["", " ", "0", "null", "NaN", "1e5", "a\"b\\c", "\u00e9\u00ff\u00a0", "\x01\x1f\x7f", "\u20ac\u4e2d", "x" * 80, " lead", "trail ", "true", "\ud83d\ude00".encode("utf-16", "surrogatepass").decode("utf-16")],
           "f": [0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 1e-45, 5e-324, 3.4028234663852886e38, 1.7976931348623157e308, -2.2250738585072014e-308, 123456789.123456789, float(1 << 53), 1 / 3],
           "hex": ["", "00", "ff" * 33], "ip": ["0.0.0.0", "255.255.255.255"],
           "rows": [[], ["00"], ["00112233445566778899"] * 20]}
    out["r"] = out["f"]
    return out[kind] + ([None] if opt else [])


def build(t, vals):
    from elgas.parameters.gas_composition import GasComposition
    flat, gas = {}, {}
    for name, v in vals.items():
        if name.startswith("gas_composition."):
            gas[name.split(".")[1]] = v
        else:
            flat[name] = v
    if gas:
        flat["gas_composition"] = GasComposition(**gas)
    return klass(t)(**flat)


def defaults(t, k0=0):
    return {name: default(name, kind, n, k0 + k) for k, (name, kind, n, opt) in enumerate(attributes(t))}


def equal(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return type(a) is type(b) and a == b


def trip(t, o, vals, ctx, ascii_=True):
    ctx.trace()
    data = schema(t).dump(o)
    try:
        txt = json.dumps(data, allow_nan=False, ensure_ascii=ascii_)
    except (TypeError, ValueError) as e:
        fail("%s: exported form is no JSON: %s (%r)" % (L.TYPES[t], e, vals))
    try:
        back = schema(t).load(json.loads(txt))
    except Exception as e:
        fail("%s: exported form cannot be loaded: %s: %s" % (L.TYPES[t], type(e).__name__, e))
    verify(t, o, back, vals)


def verify(t, o, back, vals):
    if type(back) is not type(o):
        fail("%s comes back as a %s" % (type(o).__name__, type(back).__name__))
    for name, v in vals.items():
        g = L.getattr_(back, name)
        if not equal(v, g):
            fail("%s.%s: %r comes back as %r" % (L.TYPES[t], name, v, g))
    if back != o:
        fail("%s does not come back equal: %r, %r" % (L.TYPES[t], o, back))


def run_attr(case, ctx):
    t, k = case
    name, kind, n, opt = attributes(t)[k]
    for v in values(t, kind, n, opt):
        for base in range(2):
            vals = defaults(t, base)
            vals[name] = v
            trip(t, build(t, vals), vals, ctx, base == 0)
    ctx.outcome(t, k)


def run_float(case, ctx):
    t, k, part = case
    name, kind, n, opt = attributes(t)[k]
    vals = defaults(t)
    if n == 4:
        pats = [struct.unpack("<f", (s << 31 | e << 23 | m).to_bytes(4, "little"))[0] for s in (0, 1) for e in range(part, 255, 4) for m in (0, 1, 0x2AAAAA, 0x7FFFFF)]
    else:
        pats = [struct.unpack("<d", (s << 63 | e << 52 | m).to_bytes(8, "little"))[0] for s in (0, 1) for e in range(part, 2047, 16) for m in (1, 0x5555555555555)]
    for v in pats:
        vals[name] = v
        trip(t, build(t, vals), vals, ctx)
    ctx.outcome(t, k, part)


def run_pair(case, ctx):
    t, i, j = case
    at = attributes(t)
    for a in values(t, *at[i][1:])[:3] + ([None] if at[i][3] else []):
        for b in values(t, *at[j][1:])[-3:]:
            vals = defaults(t)
            vals[at[i][0]] = a
            vals[at[j][0]] = b
            trip(t, build(t, vals), vals, ctx)
    ctx.outcome(t, i, j)


def run_absent(case, ctx):
    """Every subset of absent optional attributes, all values extreme."""
    t, mask, ext = case
    vals = {}
    for k, (name, kind, n, opt) in enumerate(attributes(t)):
        vs = [v for v in values(t, kind, n, False)]
        vals[name] = vs[ext % len(vs)]
    for i, (name, kind, n, opt) in enumerate([a for a in attributes(t) if a[3]]):
        if mask >> i & 1:
            vals[name] = None
    trip(t, build(t, vals), vals, ctx)
    ctx.outcome(t, mask, ext)


def run_decoded(case, ctx):
    """Objects as they come from a device, exported and reloaded; flags of every combination."""
    from elgas.parameters.factory import ParameterFactory
    t, seed, tail = case
    d = bytearray(L.sample(t, seed, tail))
    flagbytes = sorted({f.off for f in L.layout(t) if f.kind == "m"})
    for off in flagbytes or [0]:
        for v in range(256):
            x = bytearray(d)
            x[off] = v
            o = ParameterFactory.from_bytes(enum(t), bytes(x))
            vals = {name: L.getattr_(o, name) for name, kind, n, opt in attributes(t)}
            trip(t, o, vals, ctx)
    ctx.outcome(t, seed, tail)


def config_trip(objs, names, ctx):
    from elgas import integration as I
    ctx.trace()
    items = [I.UtilitarianConfigurationObject(parameter_type=o.object_type, data=schema(t).dump(o), series_name=n) for (t, o, v), n in zip(objs, names)]
    txt = json.dumps(I.UtilitarianConfigurationSchema().dump(I.UtilitarianConfiguration(objects=items)), allow_nan=False)
    back = I.UtilitarianConfigurationSchema().load(json.loads(txt))
    lst = back["objects"] if isinstance(back, dict) else back.objects
    if len(lst) != len(objs):
        fail("a configuration of %d objects comes back with %d" % (len(objs), len(lst)))
    for (t, o, vals), n, it in zip(objs, names, lst):
        get = (lambda k: it[k]) if isinstance(it, dict) else (lambda k: getattr(it, k))
        if get("parameter_type") != t:
            fail("object of type %d comes back with type %r" % (t, get("parameter_type")))
        if get("series_name") != n:
            fail("series name %r comes back as %r" % (n, get("series_name")))
        verify(t, o, schema(get("parameter_type")).load(get("data")), vals)
    one = I.ConfigurationObjectSchema()
    for t, o, vals in objs:
        b = one.load(json.loads(json.dumps(one.dump(I.ConfigurationObject(parameter_type=o.object_type, data=schema(t).dump(o))))))
        get = (lambda k: b[k]) if isinstance(b, dict) else (lambda k: getattr(b, k))
        if get("parameter_type") != t:
            fail("object of type %d comes back with type %r" % (t, get("parameter_type")))
        verify(t, o, schema(t).load(get("data")), vals)


def run_config(case, ctx):
    types, seed, equal = case
    objs = []
    for i, t in enumerate(types):
        i = 0 if equal else i
        vals = defaults(t, seed + i)
        if (seed + i) % 2:
            for name, kind, n, opt in attributes(t):
                if opt:
                    vals[name] = None
        objs.append((t, build(t, vals), vals))
    names = [(None, "series %d" % (0 if equal else i), "")[(seed + (0 if equal else i)) % 3] for i in range(len(objs))]
    config_trip(objs, names, ctx)
    ctx.outcome(str(case))


def families(tier):
    q = tier == "quick"

    def attr():
        for t in L.TYPES:
            for k in range(len(attributes(t))):
                yield [t, k]

    def floats():
        for t in L.TYPES:
            for k, a in enumerate(attributes(t)):
                if a[1] in ("f", "r"):
                    if q and t == 0 and k % 5:
                        continue
                    for part in (0, 1, 2, 3) if a[2] == 4 else range(0, 16):
                        if not q or a[2] == 4 or part % 4 == 0:
                            yield [t, k, part]

    def pairs():
        for t in L.TYPES:
            n = len(attributes(t))
            for i, j in itertools.combinations(range(n), 2):
                if not q or n <= 30 and (i + j) % 3 == 0:
                    yield [t, i, j]

    def absent():
        for t in L.TYPES:
            n = len([a for a in attributes(t) if a[3]])
            for mask in range(1 << n):
                for ext in range(5 if q else 15):
                    yield [t, mask, ext]

    def decoded():
        for t in L.TYPES:
            if t not in L.UNDECODABLE:
                for s in range(2 if q else 8):
                    for tail in (True, False):
                        yield [t, s, tail]

    def configs():
        for c in configs_():
            yield c + [False]
        for t in L.TYPES:
            for s in range(3):
                for n in (2, 3, 20):
                    yield [[t] * n, s, True]
                yield [[t, 30 if t != 30 else 47, t], s, True]
        for n in (100, 700):
            yield [sorted(L.TYPES) * (n // len(L.TYPES)), 0, n == 700]

    def configs_():
        ts = list(L.TYPES)
        for s in range(3):
            yield [[], s]
            yield [ts, s]
            yield [ts[::-1], s]
            for t in ts:
                yield [[t], s]
            for a, b in itertools.product(ts, repeat=2):
                yield [[a, b], s]
        small = (0, 30, 31, 36, 48, 61, 75, 141, 85) if q else ts
        for a, b, c in itertools.product(small, repeat=3):
            yield [[a, b, c], 0]
        if not q:
            for c in itertools.product((0, 30, 31, 48, 61, 75, 141), repeat=4):
                yield [list(c), 1]

    return [
        Family("attributes", attr, run_attr, "border values of every attribute"),
        Family("absent", absent, run_absent, "every subset of absent optionals"),
        Family("configs", configs, run_config, "configurations of up to 3 (thorough 4) objects, all types at once, equal objects, up to 700 objects"),
        Family("decoded", decoded, run_decoded, "objects decoded from records with every flag byte"),
        Family("floats", floats, run_float, "every float exponent"),
        Family("pairs", pairs, run_pair, "pairs of attributes"),
    ]
