"""Record layouts of the parameter objects, as a table.  Written once against the device records used in the
repository's tests and reviewed field by field; nothing here looks at the code under test.

number:u2 unsigned little-endian of 2 bytes; m<mask> a flag of the byte before (m48>>4: a number in bits 4-5);
text<n> Latin-1 text; f4/f8 IEEE float; r4 float which may be rounded to seven decimals; hex<n> lower-case hex;
ip4 dotted quad; skip<n> unused; gas92 23 floats; rows10 as many 10 byte rows as the byte before says;
?decimals:u1 one optional trailing byte; ?log optional action byte and two texts of 13 bytes.
"""
import math
import struct

TYPES = {0: "SystemParameters", 30: "AnalogQuantity", 31: "Binary", 32: "Counter", 33: "StandardCounter", 34: "FlowRate",
         35: "StandardFlowRate", 36: "ConversionCoefficient", 45: "ErrorCounter", 46: "ErrorStandardCounter",
         47: "Compressibility", 48: "TimeWindow", 49: "CorrectionCounter", 53: "DoubleCounter", 54: "DoubleErrorCounter",
         59: "Diagnostics", 61: "DeviceError", 62: "SumOfAlarms", 65: "Timer", 68: "TariffCounter", 69: "BaseTariffCounter",
         70: "SetPoint", 72: "DifferenceCounter", 73: "DifferenceBaseCounter", 74: "CompressibilityZ",
         75: "CompressibilityZBase", 77: "Energy", 78: "ErrorEnergy", 79: "DoubleTariffCounter", 80: "AnalogStatistics",
         81: "CounterStatistics", 82: "StandardCounterStatistics", 83: "Statistics", 84: "AnalogTimeStatistics",
         85: "TimeStatistics", 141: "Modem"}
SAME = {"CorrectionCounter": "ErrorCounter", "DoubleErrorCounter": "ErrorCounter", "DoubleCounter": "Counter",
        "DifferenceBaseCounter": "DifferenceCounter", "CompressibilityZ": "Compressibility",
        "CompressibilityZBase": "Compressibility", "ErrorEnergy": "Energy", "DoubleTariffCounter": "TariffCounter",
        "StandardCounterStatistics": "CounterStatistics", "Statistics": "AnalogStatistics",
        "AnalogTimeStatistics": "AnalogStatistics", "TimeStatistics": "AnalogStatistics"}
UNDECODABLE = (61, 62)      # known finding: the code cannot decode these at all; their layout is not known

GAS = ["co2", "n2", "combustion_heat", "relative_density", "h2", "h2s", "he", "h2o", "o2", "ar", "co", "c1h4", "c2h6", "c3h8",
       "ic4h10", "nc4h10", "ic5h12", "nc5h12", "c6h14", "c7h16", "c8h18", "c9h20", "c10h22"]

TABLE = """
AnalogQuantity
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 in_fast_archive_1:m32 in_fast_archvie_2:m64 name:text23
    unit:text8 digit:r4 offset:f4 lower_limit_measuring_range:r4 upper_limit_measuring_range:f4 serial_number_transducer:u4
    error_bit_order_in_actual_values:u2 error_bit_order_in_binary_archive:u2 error_bit_order_in_data_archive:u2
    address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 samples_in_fast_archive:u1 ?decimals:u1
Binary
    number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 bit_order_in_binary_archive_record:u2
    bit_control:u1 in_binary_archive:m1 in_data_archive:m2 active_indicator:m64 name:text23 error_bit_order_in_actual_values:u2
    error_bit_order_in_binary_archive_record:u2 error_bit_order_in_data_archive_record:u2 ?log
Compressibility
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 number_of_conversion_coefficient:u1
    address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 ?decimals:u1
ConversionCoefficient
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 number_of_analog_pressure:u1
    number_of_analog_temperature:u1 compressibility_calculation_method:u1 default_value_pressure:f4 default_value_temperature:f4
    alternate_value_of_compressibility:f4 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 ?decimals:u1
Counter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 accept_counting_direction:m64
    name:text23 unit:text8 digit:f8 serial_number_of_gas_meter:u4 error_bit_order_in_actual_values:u2
    error_bit_order_in_binary_archive:u2 error_bit_order_in_data_archive:u2 address_in_daily_archive_record:u2
    address_in_monthly_archive_record:u2 address_in_billing_archive_record:u2 serial_number_of_gas_meter_text:text17 ?decimals:u1
DeviceError
    number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 bit_order_in_binary_archive_record:u2
    bit_control:u1 in_binary_archive:m1 in_data_archive:m2 name:text23 ?log
Diagnostics
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 name:text23 address_in_daily_archive_record:u2
    address_in_monthly_archive_record:u2 mask_1_of_status_archive:u4 mask_2_of_status_archive:u4 mask_1_of_alarm:u4
    mask_2_of_alarm:u4 mask_1_of_calling_to_dispatching:u4 mask_2_of_calling_to_dispatching:u4 action_during_change:u1
DifferenceCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_double:m8 is_metrological_quantity:m16 name:text23 unit:text8 digit:f8
    number_of_primary_counter:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
Energy
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8
    number_of_standard_counter:u1 number_of_calorific_value:u1 number_of_conversion:u1 address_in_daily_archive_record:u2
    address_in_monthly_archive_record:u2 address_in_billing_archive_record:u2 ?decimals:u1
ErrorCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8 digit:f8
    number_of_primary_counter:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
ErrorStandardCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8
    number_of_standard_counter:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
FlowRate
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 unit:text8
    error_bit_order_in_actual_values:u2 error_bit_order_in_binary_archive:u2 error_bit_order_in_data_archive:u2
    address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 ?decimals:u1
StandardFlowRate
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 unit:text8 number_of_primary_flow_rate:u1
    number_of_conversion:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2 ?decimals:u1
Modem
    number:u1 bit_control_0:u1 title:text7 modem_type:u1 initialization:text32 call_to_dispatching:text32 modem_hang_up:text8
    special_initialization:text80 ip_address_for_registration_and_diagnostics:ip4 ip_address_for_calling_to_dispatching:ip4
    registration_send_period:u1 authentication_mode:u1 port_for_registration:u2 port_for_calling_to_dispatching:u2 sms_call:text32
    gprs_user_name:text49 gprs_password:hex33 ip_address_for_ping:ip4 ping_period:u2 transition_into_command_mode:text8 pin:hex9
    owner_sim_number:text17
SetPoint
    number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 bit_order_in_binary_archive_record:u2
    bit_control:u1 in_binary_archive:m1 in_data_archive:m2 active_indicator:m64 name:text23 value_of_limit:f4
    type_of_primary_quantity:u1 number_of_primary_quantity:u1 ?log
StandardCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8
    number_of_primary_counter:u1 number_of_conversion:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
AnalogStatistics
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 unit:text8 digit:r4 offset:f4
    number_of_primary_quantity:u1 statistics_type:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    ?decimals:u1
CounterStatistics
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 unit:text8 digit:f8
    type_of_primary_quantity:u1 number_of_primary_quantity:u1 statistics_type:u1 address_in_daily_archive_record:u2
    address_in_monthly_archive_record:u2
SumOfAlarms
    number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 bit_order_in_binary_archive_record:u2
    bit_control:u1 in_binary_archive:m1 in_data_archive:m2 name:text23 ?log
SystemParameters
    device_type:u1 serial_number:u4 firmware_version:text5 service_version:u1 certification_variant:u1 station_id:text17 -:u1
    password_for_full_access_active:m1 password_for_reading_is_on:m2 metrological_switch:m4 user_switch:m8 switch_function:m48>>4
    parameter_crc:u2 measuring_period:u1 archive_period:u2 base_pressure:f4 base_temperature:f4 compressibility_formula:u1
    gas_composition:gas92 data_archive_record_length:u2 binary_archive_record_length:u2 daily_archive_record_length:u2
    monthly_archive_record_length:u2 instantaneous_values_error_bit_order:u2 binary_archive_record_error_bit_order:u2
    data_archive_record_error_bit_order:u2 optical_port_speed:u1 optical_port_protocol:u1 optical_port_bit_control:u1
    communication_port_0_speed:u1 communication_port_0_protocol:u1 communication_port_0_bit_control:u1
    communication_port_1_speed:u1 communication_port_1_protocol:u1 communication_port_1_bit_control:u1
    communication_port_2_speed:u1 communication_port_2_protocol:u1 communication_port_2_bit_control:u1 gas_day_hour:u1
    fixed_barometric_pressure:f4 altitude:f4 -:skip17 status_archive_record_length:u2 pressure_unit_type:u1
    pressure_unit_text:text8 temperature_unit_type:u1 temperature_unit_text:text8 altitude_unit_type:u1 altitude_unit_text:text8
    gross_calorific_value_type:u1 gross_calorific_value_text:text8 dst_region:u1 gmt_hour_shift:u1
    billing_archive_record_length:u2 conditions_for_combustion_heat:u1 device_variant:u1 -:skip1 bit_control:u1
    places_for_corrected_volume_counters:u1 device_features_bits:u1 device_features:hex16 version_metrological_part:text5
    metrological_crc:u2 metrological_crc_32:u4 application_crc_32:u4
TariffCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8 digit:f8
    number_of_primary_counter:u1 tariff:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
BaseTariffCounter
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 in_factory_archive:m8 is_metrological_quantity:m16 name:text23 unit:text8
    number_of_base_counter:u1 tariff:u1 address_in_daily_archive_record:u2 address_in_monthly_archive_record:u2
    address_in_billing_archive_record:u2 ?decimals:u1
TimeWindow
    number:u2 id:u2 bit_order_in_actual_values:u2 bit_order_in_data_archive_record:u2 bit_order_in_binary_archive_record:u2
    bit_control:u1 in_binary_archive:m1 in_data_archive:m2 name:text23 rows_in_window:u1 rows:rows10 ?log
Timer
    number:u2 id:u2 address_in_actual_values:u2 address_in_data_archive_record:u2 bit_control:u1 in_data_archive:m1
    in_daily_archive:m2 in_monthly_archive:m4 is_metrological_quantity:m16 name:text23 address_in_daily_archive_record:u2
    address_in_monthly_archive_record:u2
"""


class F:
    """One field: attribute name, kind, offset, size (flags: offset of the byte they are in)."""

    def __init__(self, name, kind, off, size, arg=None, opt=False):
        self.name, self.kind, self.off, self.size, self.arg, self.opt = name, kind, off, size, arg, opt


def _build():
    out, cur = {}, None
    for line in TABLE.strip().splitlines():
        if not line.startswith(" "):
            cur = out.setdefault(line.strip(), [])
        else:
            cur += line.split()
    res = {}
    for cname, toks in out.items():
        fields, off = [], 0
        for t in toks:
            if t == "?log":
                fields += [F("action_during_change", "u", off, 1, opt=True), F("text_log_0", "text", off + 1, 13, opt=True),
                           F("text_log_1", "text", off + 14, 13, opt=True)]
                off += 27
                continue
            opt = t.startswith("?")
            name, spec = t.lstrip("?").split(":")
            kind = spec.rstrip("0123456789>")
            if kind == "m":
                mask, _, shift = spec[1:].partition(">>")
                fields.append(F(name, "m", off - 1, 0, (int(mask), int(shift) if shift else None), opt))
                continue
            n = int(spec[len(kind):])
            if kind == "rows":
                fields.append(F(name, "rows", off, 0, n))
                continue
            if kind == "gas":
                for i, g in enumerate(GAS):
                    fields.append(F("%s.%s" % (name, g), "f", off + 4 * i, 4))
                off += n
                continue
            if not (kind == "skip" or name == "-"):
                fields.append(F(name, kind, off, n, None, opt))
            off += n
        res[cname] = fields
    sizes = {}
    for cname, toks in out.items():
        n = 0
        for t in toks:
            if t == "?log" or t.startswith("?"):
                continue
            spec = t.split(":")[1]
            kind = spec.rstrip("0123456789>")
            if kind not in ("m", "rows"):
                n += int(spec[len(kind):])
        sizes[cname] = n
    return res, sizes


FIELDS, SIZES = _build()


def layout(t):
    c = TYPES[t]
    return FIELDS[SAME.get(c, c)]


def size(t):
    """Bytes of a record's data without optional tail (and without rows)."""
    c = TYPES[t]
    return SIZES[SAME.get(c, c)]


def tail(t):
    return sum(f.size for f in layout(t) if f.opt)


def text(raw):
    """Text ends at the last NUL; NULs inside count as blanks; blanks around it do not belong to it."""
    i = bytes(raw).rfind(b"\x00")
    if i >= 0:
        raw = raw[:i]
    return "".join(" " if b == 0 else chr(b) for b in raw).strip(" \t\n\r\x0b\x0c")


def value(f, d, off):
    raw = bytes(d[off:off + f.size])
    if f.kind == "u":
        return int.from_bytes(raw, "little")
    if f.kind == "m":
        mask, shift = f.arg
        return bool(d[off] & mask) if shift is None else (d[off] & mask) >> shift
    if f.kind == "text":
        return text(raw)
    if f.kind in ("f", "r"):
        return struct.unpack("<f" if f.size == 4 else "<d", raw)[0]
    if f.kind == "hex":
        return raw.hex()
    if f.kind == "ip":
        return ".".join(str(b) for b in raw)
    raise KeyError(f.kind)


def expect(t, d):
    """List of (attribute, kind, expected value) or None when the record is too short or cut inside its tail."""
    need, out = size(t), []
    if len(d) < need:
        return None
    shift = 0
    for f in layout(t):
        if f.kind == "rows":
            n = d[f.off - 1]
            if len(d) < need + n * f.arg:
                return None
            out.append((f.name, "rows", [bytes(d[f.off + i * f.arg:f.off + (i + 1) * f.arg]).hex() for i in range(n)]))
            shift = n * f.arg
            continue
        if f.opt and len(d) == need + shift:
            out.append((f.name, "none", None))
            continue
        if f.off + shift + max(f.size, 1) > len(d):
            return None
        out.append((f.name, f.kind, value(f, d, f.off + shift)))
    return out


def same(kind, exp, got):
    if kind in ("f", "r"):
        if not isinstance(got, float):
            return False
        if math.isnan(exp):
            return math.isnan(got)
        if got == exp:
            return True
        return kind == "r" and not math.isinf(exp) and got == round(exp, 7)
    if kind == "none":
        return got is None
    if kind == "rows":
        return list(got) == exp
    if kind == "m" and isinstance(exp, bool):
        return isinstance(got, (bool, int)) and got == exp
    return type(got) is type(exp) and got == exp or (isinstance(got, int) and not isinstance(got, bool) and got == exp)


def getattr_(o, path):
    for p in path.split("."):
        o = getattr(o, p)
    return o


def compare(t, d, got):
    """None or a message."""
    e = expect(t, d)
    if type(got).__name__ != TYPES[t]:
        return "type %d decodes to a %s" % (t, type(got).__name__)
    if e is None:
        return "a record too short for type %d decodes to %r" % (t, got)
    if got.object_type != t:
        return "an object of type %d says it is of type %r" % (t, got.object_type)
    for name, kind, v in e:
        g = getattr_(got, name)
        if not same(kind, v, g):
            return "%s.%s is %r, the record says %r" % (TYPES[t], name, g, v)
    return None


def sample(t, seed=0, with_tail=True, rows=2):
    """A plausible record: distinct bytes everywhere, texts are letters, floats are ordinary numbers."""
    n = size(t)
    lay = layout(t)
    d = bytearray((7 + 3 * i + 17 * seed) & 0xFF for i in range(n + (tail(t) if with_tail else 0)))
    for k, f in enumerate(lay):
        if f.opt and not with_tail:
            continue
        if f.kind == "text":
            s = "".join(chr(65 + (i * 5 + k + seed) % 26) for i in range(f.size - 1 - (k + seed) % 3))
            d[f.off:f.off + f.size] = s.encode().ljust(f.size, b"\x00")
        elif f.kind in ("f", "r"):
            v = (k + 1) * 0.25 + seed
            d[f.off:f.off + f.size] = struct.pack("<f" if f.size == 4 else "<d", v)
    if t == 48:
        at = next(f.off for f in lay if f.kind == "rows")
        d[at - 1] = rows
        d[at:at] = bytes((11 * i + seed) & 0xFF for i in range(rows * 10))
    return bytes(d)
