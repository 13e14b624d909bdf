"""C28 incomplete or malformed configuration data is refused on import."""
import copy
import itertools
import json

from mc import layouts as L
from mc.core import Family, fail
from mc.props import c15

PROP, LEVEL = "C28", "exploration"
RULE = ("exported objects of every type with every attribute missing, null or of another kind, every pair of attributes damaged, unknown names added, "
        "every type's data imported as every other type, damaged configurations, and all sequences of good and damaged imports up to a depth on one "
        "schema; each damaged import must be refused with a validation error that names the attribute and each good one give the exported object; "
        "non-trivial: one import refused or accepted")
ASSUMPTIONS = ["null is only tried for attributes which every record of the device has, and not for the owner's number of a modem", "a number written as text counts as a number, so it is not tried as damage",
               "whether infinity and NaN are refused is left open"]

GONE = ["missing"]
WRONG = {
    "u": ["", "abc", "7x", [], [7], {}, {"value": 7}],
    "m": ["", "maybe", [], [1], {}],
    "f": ["", "abc", "1,5", [], [1.5], {}, {"value": 1.5}],
    "text": [5, 1.5, [], ["text"], {}, {"value": "text"}],
    "rows": [5, "00", {}, [5], [None], [["00"]], ["00", 5], ["00", None, "11"], [{}]],
}
WRONG["r"] = WRONG["f"]
WRONG["hex"] = WRONG["ip"] = WRONG["text"]
# may be null although each record of the device holds it
NULLABLE = {"owner_sim_number"}


def load(s, data):
    """('object', x) or ('refused', messages); anything else is a violation."""
    import marshmallow
    try:
        return "object", s.load(data)
    except marshmallow.ValidationError as e:
        return "refused", e.messages
    except Exception as e:
        return "failed", "%s: %s" % (type(e).__name__, e)


def names(messages, path):
    for p in path:
        if not isinstance(messages, dict) or p not in messages:
            return False
        messages = messages[p]
    return True


def damaged(data, path, v):
    data = copy.deepcopy(data)
    x = data
    for p in path[:-1]:
        if not isinstance(x, dict) or p not in x:
            return None
        x = x[p]
    if not isinstance(x, dict) or path[-1] not in x:
        return None
    if v is GONE:
        del x[path[-1]]
    else:
        x[path[-1]] = v
    return data


def exported(t, k=0):
    """(schema, values, JSON form) of an object of type t; k: ordinary values, "first", "last" and "none" extreme ones."""
    s, vals = c15.schema(t), c15.defaults(t, k if isinstance(k, int) else 0)
    if not isinstance(k, int):
        for name, kind, n, opt in c15.attributes(t):
            if k != "none":
                vals[name] = c15.values(t, kind, n, False)[0 if k == "first" else -1]
            elif opt:
                vals[name] = None
    o = c15.build(t, vals)
    return s, o, vals, json.loads(json.dumps(s.dump(o)))


def refused(t, s, data, paths, what, ctx):
    ctx.trace()
    ctx.step()
    before = copy.deepcopy(data)
    r, m = load(s, data)
    if r == "object":
        fail("%s: %s is accepted: %r" % (L.TYPES.get(t, t), what, m))
    if r == "failed":
        fail("%s: %s is not refused with a validation error: %s" % (L.TYPES.get(t, t), what, m))
    for p in paths:
        if not names(m, p):
            fail("%s: %s: the error does not name %s: %r" % (L.TYPES.get(t, t), what, ".".join(map(str, p)), m))
    if data != before:
        fail("%s: %s: refusing changed the data" % (L.TYPES.get(t, t), what))


def accepted(t, s, o, vals, data, what, ctx):
    ctx.trace()
    ctx.step()
    r, x = load(s, data)
    if r != "object":
        fail("%s: %s: good data is not accepted: %s" % (L.TYPES[t], what, x))
    c15.verify(t, o, x, vals)


def damages(kind, opt, name, t):
    out = [("missing", GONE)]
    if not opt and name not in NULLABLE:
        out.append(("null", None))
    return out + [("%r in its place" % (v,), v) for v in WRONG[kind]]


def run_single(case, ctx):
    t, k = case
    name, kind, n, opt = c15.attributes(t)[k]
    path = name.split(".")
    for base in (0, 1, "first", "last", "none"):
        s, o, vals, data = exported(t, base)
        for what, v in damages(kind, opt, name, t):
            bad = damaged(data, path, v)
            if bad is None:
                fail("%s: the export does not hold %s" % (L.TYPES[t], name))
            refused(t, s, bad, [path], "%s: %s" % (name, what), ctx)
            # the next import on this schema is not affected
            accepted(t, s, o, vals, data, "after refusing %s: %s" % (name, what), ctx)
            ctx.state(t, name, what)
    ctx.outcome(t, k)


def run_pairs(case, ctx):
    t, i = case
    at = c15.attributes(t)
    s, o, vals, data = exported(t)
    a = at[i]
    for j in range(len(at)):
        if j == i:
            continue
        b = at[j]
        for (wa, va), (wb, vb) in itertools.product((("missing", GONE), ("list", [])), (("missing", GONE), ("object", {}))):
            if a[1] == "rows" and va == [] or b[1] == "rows" and vb is None:
                continue
            pa, pb = a[0].split("."), b[0].split(".")
            bad = damaged(damaged(data, pa, va), pb, vb)
            refused(t, s, bad, [pa, pb], "%s %s and %s %s" % (a[0], wa, b[0], wb), ctx)
    accepted(t, s, o, vals, data, "afterwards", ctx)
    ctx.outcome(t, i)


def run_few(case, ctx):
    """Only one attribute, or all but those up to one, or none are there."""
    t, i = case
    at = [a[0].split(".") for a in c15.attributes(t)]
    s, o, vals, data = exported(t)
    tops = list(dict.fromkeys(p[0] for p in at))
    if i >= len(tops):
        return
    for keep in ([tops[i]], tops[:i], tops[i + 1:], tops[:i] + tops[i + 1:]):
        bad = {k: copy.deepcopy(v) for k, v in data.items() if k in keep}
        refused(t, s, bad, [[k] for k in tops if k not in keep], "only %d of %d attributes" % (len(keep), len(tops)), ctx)
    rev = dict(reversed(list(data.items())))
    accepted(t, s, o, vals, rev, "attributes in another order", ctx)
    ctx.outcome(t, i)


def run_unknown(case, ctx):
    t, k = case
    s, o, vals, data = exported(t, k)
    own = set(data)
    others = {a[0].split(".")[0] for u in L.TYPES for a in c15.attributes(u)} | {"x", "", " ", "object_type", "parameter_type", "data", "self", "cls", "args",
                                                                                 "kwargs", "Number", "number ", "_id", "__class__", "many", "partial", "unknown"}
    for name in sorted(others - own):
        for v in (None, 1, "text", [], {}):
            bad = dict(data)
            bad[name] = v
            refused(t, s, bad, [[name]], "unknown %r: %r" % (name, v), ctx)
        bad = dict(data)
        for gone in list(data)[:1] + list(data)[-1:]:
            bad = {a: b for a, b in data.items() if a != gone}
            bad[name] = data[gone]
            refused(t, s, bad, [[name], [gone]], "%s is called %r" % (gone, name), ctx)
    for top in (None, [], [data], "", "x", json.dumps(data), 5, 1.5, True, {}):
        refused(t, s, top, [], "%.40r instead of an object" % (top,), ctx)
    if "gas_composition" in data:
        for name in ("x", "number", "gas_composition", ""):
            bad = copy.deepcopy(data)
            bad["gas_composition"][name] = 1.0
            refused(t, s, bad, [["gas_composition", name]], "unknown %r in the gas composition" % name, ctx)
        for v in (None, [], "x", 5, {}, [data["gas_composition"]], "{}"):
            bad = dict(data)
            bad["gas_composition"] = v
            refused(t, s, bad, [["gas_composition"]], "%.40r as the gas composition" % (v,), ctx)
    accepted(t, s, o, vals, data, "afterwards", ctx)
    ctx.outcome(t, k)


def run_other(case, ctx):
    """The data of every type imported as type t."""
    t = case
    s, o, vals, data = exported(t)
    for u in L.TYPES:
        su, ou, valsu, datau = exported(u)
        if set(datau) == set(data):
            continue
        missing = [[k] for k in data if k not in datau]
        unknown = [[k] for k in datau if k not in data]
        refused(t, s, datau, missing + unknown, "data of a %s" % L.TYPES[u], ctx)
        accepted(t, s, o, vals, data, "after data of a %s" % L.TYPES[u], ctx)
    ctx.outcome(t)


def run_history(case, ctx):
    """Sequences of imports with one schema; exports in between."""
    t, seq = case
    s, o, vals, data = exported(t)
    _, o2, vals2, data2 = exported(t, 3)
    at = c15.attributes(t)
    first, last = at[0][0].split("."), at[-1][0].split(".")
    for i, e in enumerate(seq):
        what = "imports %s, number %d" % (seq, i)
        if e == "a":
            accepted(t, s, o, vals, data, what, ctx)
        elif e == "b":
            accepted(t, s, o2, vals2, data2, what, ctx)
        elif e == "missing":
            refused(t, s, damaged(data, last, GONE), [last], what, ctx)
        elif e == "unknown":
            refused(t, s, dict(data2, foreign=1), [["foreign"]], what, ctx)
        elif e == "wrong":
            refused(t, s, damaged(data2, first, []), [first], what, ctx)
        elif e == "nothing":
            refused(t, s, {}, [[k] for k in data], what, ctx)
        elif e == "dump":
            if s.dump(o2) != data2 and json.loads(json.dumps(s.dump(o2))) != data2:
                fail("%s: %s: exporting gives something else" % (L.TYPES[t], what))
        ctx.state(t, tuple(seq[:i + 1]))
    ctx.outcome(t, tuple(seq))


def run_config(case, ctx):
    """Configurations with one damaged object."""
    from elgas import integration as I
    n, at, damage = case
    ts = sorted(L.TYPES)
    items = []
    for i in range(n):
        t = ts[i * 7 % len(ts)]
        s, o, vals, data = exported(t, i)
        items.append({"parameter_type": t, "data": data, "series_name": None if i % 2 else "series"})
    S = I.UtilitarianConfigurationSchema()
    bad = copy.deepcopy(items)
    key, v = damage
    if key == "object":
        bad[at] = v
        path = ["objects", at]
    else:
        if v == "missing":
            del bad[at][key]
        else:
            bad[at][key] = v
        path = ["objects", at, key]
    refused("configuration", S, {"objects": bad}, [path], "object %d of %d: %s %r" % (at, n, key, v), ctx)
    r, x = load(S, {"objects": items})
    if r != "object":
        fail("a good configuration of %d is refused after a damaged one: %r" % (n, x))
    if key in ("parameter_type", "data") or key == "x":
        C = I.ConfigurationObjectSchema()
        one = {k: w for k, w in bad[at].items() if k != "series_name"}
        refused("configuration object", C, one, [[key]], "%s %r" % (key, v), ctx)
        r, x = load(C, {k: w for k, w in items[at].items() if k != "series_name"})
        if r != "object":
            fail("a good configuration object is refused after a damaged one: %r" % (x,))
    ctx.outcome(str(case))


def run_whole(case, ctx):
    from elgas import integration as I
    S = I.UtilitarianConfigurationSchema()
    t, = case
    s, o, vals, data = exported(t)
    item = {"parameter_type": t, "data": data, "series_name": None}
    for top in (None, [], [item], "x", 5, True):
        refused("configuration", S, top, [], "%.30r instead of a configuration" % (top,), ctx)
    for v in (None, 5, "x", item, True):
        refused("configuration", S, {"objects": v}, [["objects"]], "%.30r instead of the objects" % (v,), ctx)
    for name in ("x", "", "object", "series_name", "data", "parameter_type"):
        refused("configuration", S, {"objects": [item], name: [item]}, [[name]], "unknown %r" % name, ctx)
    ctx.outcome(str(case))


def run_types(case, ctx):
    """Only codes of known types have a schema."""
    from elgas.parameters.enumerations import ParameterObjectType
    from elgas.parameters.factory import ParameterSchemaFactory
    a, b = case
    for n in range(a, b):
        ctx.trace()
        ctx.step()
        try:
            x = ParameterSchemaFactory.by_parameter_id(ParameterObjectType(n))
        except (KeyError, ValueError):
            if n in L.TYPES:
                fail("type %d has no schema" % n)
        else:
            if n not in L.TYPES:
                fail("type %d, which is unknown, has the schema %r" % (n, x))
        try:
            x = ParameterSchemaFactory.by_parameter_id(n)
        except (KeyError, ValueError):
            if n in L.TYPES:
                fail("type %d has no schema" % n)
        else:
            if n not in L.TYPES:
                fail("type %d, which is unknown, has the schema %r" % (n, x))
        ctx.outcome(n)


def families(tier):
    q = tier == "quick"

    def single():
        for t in L.TYPES:
            for k in range(len(c15.attributes(t))):
                yield [t, k]

    def tops():
        for t in L.TYPES:
            for k in range(len({a[0].split(".")[0] for a in c15.attributes(t)})):
                yield [t, k]

    def unknown():
        for t in L.TYPES:
            for k in (0,) if q else (0, 1, 2):
                yield [t, k]

    def history():
        al = ["a", "b", "missing", "unknown", "wrong", "nothing", "dump"]
        for t in L.TYPES:
            for n in range(1, (3 if q else 4) + 1):
                for seq in itertools.product(al, repeat=n):
                    if not q or n < 3 or t in (0, 30, 36, 61, 75, 85, 141):
                        if n < 4 or t in (30, 75):
                            yield [t, list(seq)]

    def config():
        bad = [["parameter_type", v] for v in ("missing", None, "", "abc", [], {}, [30])] + \
              [["data", v] for v in ("missing", None, "", "abc", [], [{}], 5)] + \
              [["series_name", v] for v in ("missing", 5, [], {}, ["a"])] + [["x", v] for v in (None, 1, {})] + \
              [["object", v] for v in (None, [], "x", 5)]
        for n in (1, 2, 5) if q else (1, 2, 3, 5, 12, 40):
            for at in range(n):
                for d in bad:
                    yield [n, at, d]

    return [
        Family("single", single, run_single, "every attribute missing, null or of another kind"),
        Family("few", tops, run_few, "one attribute, all before or behind one, all but one"),
        Family("unknown", unknown, run_unknown, "unknown names, renamed attributes, no object at all"),
        Family("other", lambda: list(L.TYPES), run_other, "data of every type imported as every other"),
        Family("types", lambda: [[a, a + 64] for a in range(-64, 1024 if q else 1 << 16, 64)], run_types, "every type code"),
        Family("config", config, run_config, "every damage at every object of a configuration"),
        Family("whole", lambda: [[t] for t in L.TYPES], run_whole, "no configuration at all"),
        Family("history", history, run_history, "all sequences of up to 3 (thorough 4) good and damaged imports and exports"),
        Family("pairs", single, run_pairs, "every pair of attributes, missing or of another kind"),
    ]
