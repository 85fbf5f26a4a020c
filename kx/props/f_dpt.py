import itertools
from kx.core import Prop

# class -> (width of the value, ((accessor, lowest bit, width, ((name, code), ...) or None), ...))
SW = (("off", 0), ("on", 1))
FUNZ = (("off", 0), ("forced_off", 1), ("off_a_tempo", 2), ("antigelo", 3), ("riduzione_notturna", 4),
        ("riduzione_notturna_a_tempo", 5), ("manuale", 6), ("manuale_a_tempo", 7), ("automatico", 8),
        ("automatico_invio_temperatura_abilitato", 8), ("automatico_invio_temperatura_disabilitato", 14))
STAG = (("inverno", 0), ("estate", 1))
LAYOUT = {
    "DPT_Switch": (8, (("action", 0, 1, SW),)),
    "DPT_Info_Switch": (8, (("action", 0, 1, SW),)),
    "DPT_Alarm": (8, (("action", 0, 1, (("no_alarm", 0), ("alarm", 1))),)),
    "DPT_UpDown": (8, (("direction", 0, 1, (("up", 0), ("down", 1))),)),
    "DPT_Start": (8, (("action", 0, 1, (("stop", 0), ("start", 1))),)),
    "DPTVimarScene": (8, (("index", 0, 6, None),
                          ("command", 6, 2, (("attiva", 0), ("cancella", 1), ("memorizza", 2), ("identifica", 3))))),
    "DPT_SceneControl": (8, (("number", 0, 6, None), ("command", 7, 1, (("activate", 0), ("learn", 1))))),
    "DPT_Control_Dimming": (8, (("step", 0, 3, None), ("direction", 3, 1, (("down", 0), ("up", 1))))),
    "DPT_Brightness": (8, (("bits", 0, 8, None),)),
    "DPTSetupClima": (32, (("temporizzazione", 0, 8, None), ("setpoint", 8, 8, None), ("differenziale", 16, 5, None),
                           ("variazione_setpoint", 21, 2, None),
                           ("unita_misura", 23, 1, (("celsius", 0), ("farenheit", 1))),
                           ("funzionamento", 24, 4, FUNZ), ("centralizzato", 28, 1, None),
                           ("stagione", 29, 1, STAG), ("terziario", 30, 1, None))),
    "DPTInfoClimaReport": (32, (("temporizzazione", 9, 7, None), ("setpoint", 16, 8, None),
                                ("funzionamento", 24, 4, FUNZ), ("centralizzato", 28, 1, None),
                                ("stagione", 29, 1, STAG), ("terziario", 30, 1, None), ("stato_rele", 31, 1, None))),
}

DPTS = '''
LAYOUT = %r


def others(obj, name, fields, tag):
    """the plain accessors other than name, as they read now"""
    return [(n, getattr(obj.bits, n)) for n, lo, w, e in fields if n != name and n != "bits"]


def read(cls, name):
    """every accessor reads its own bits of every value"""
    width, fields = LAYOUT[cls]
    obj = getattr(D, cls)()
    for n, lo, w, enum in fields:
        if n == name:
            if enum is None:
                v = sym("v", 0, 2 ** width - 1)
                obj.value = v
                check_eq(getattr(obj, n), (v >> lo) & (2 ** w - 1), "an accessor reads its own bits", obj)
                check_eq(obj.value, v, "reading does not change the value", obj)
            else:
                for label, code in enum:
                    rest = sym("v", 0, 2 ** width - 1)
                    v = (rest & ((2 ** width - 1) ^ ((2 ** w - 1) << lo))) | (code << lo)
                    obj.value = v
                    got = getattr(obj, n)
                    check_eq(int(got), code, "an enumerated accessor reads its own bits", obj)
                    first = [x for x, c in enum if c == code][0]
                    check_eq(got.name, first, "an enumerated accessor names the code", obj)
                    check_eq(obj.value, v, "reading does not change the value", obj)


def write(cls, name):
    """every accessor writes its own bits and no other"""
    width, fields = LAYOUT[cls]
    for n, lo, w, enum in fields:
        if n == name:
            mask = (2 ** width - 1) ^ ((2 ** w - 1) << lo)
            obj = getattr(D, cls)()
            v = sym("v", 0, 2 ** width - 1)
            bystander = getattr(D, cls)()
            obj.value = v
            if enum is None:
                new = sym("new", 0, 2 ** w - 1)
                setattr(obj, n, new)
                check_eq(obj.value, (v & mask) | (new << lo), "an accessor writes its own bits and no other", obj)
                check_eq(getattr(obj, n), new, "an accessor reads back what was written", obj)
            else:
                for label, code in enum:
                    obj.value = v
                    setattr(obj, n, label)
                    check_eq(obj.value, (v & mask) | (code << lo), "an accessor writes its own bits and no other", obj)
                    check_eq(int(getattr(obj, n)), code, "an accessor reads back what was written", obj)
                obj.value = v
                try:
                    setattr(obj, n, "no such name")
                    refused = False
                except Exception:
                    refused = True
                check(refused, "a name that is not in the enumeration is refused", obj)
                check_eq(obj.value, v, "a refused name leaves the value alone", obj)
            check_eq(bystander.value, 0, "another datapoint is not affected", bystander)


def temperature(case):
    """DPTInfoClimaReport.temperatura: nine bits in tenths of a degree"""
    obj = D.DPTInfoClimaReport()
    v = sym("v", 0, 2 ** 32 - 1)
    obj.value = v
    if case == "other fields":
        t = sym("t", 0, 511)
        obj.bits.temperatura_lsb = t & 255
        obj.bits.temperatura_msb = t >> 8
        check_eq(obj.value, (v & 0xFFFFFE00) | t, "the temperature takes the lowest nine bits", obj)
    else:
        obj.temperatura = case / 10
        low = (case & 255) | (case >> 8 << 8)
        check_eq(obj.value & 0xFFFFFE00, v & 0xFFFFFE00, "setting the temperature changes no other field", obj)
        check(obj.temperatura * 10 - case <= 1, "the temperature read back is the one written, within a tenth", obj)
        check(case - obj.temperatura * 10 <= 1.0001, "the temperature read back is the one written, within a tenth", obj)


def sizes(cls):
    """size on the wire and travel inside the APCI octet"""
    obj = getattr(D, cls)()
    less = obj.length is D.DPT.Length.LESS_THAN_A_BYTE
    check_eq(less, cls in INLINE, "exactly the datapoints of six bits or less travel inside the APCI octet", obj)
    n = DSIZE[cls]
    v = sym("v", 0, 256 ** n - 1)
    obj.value = v
    check_eq(obj.value, v, "a datapoint keeps every value of its size", obj)
    check_eq(getattr(D, cls)().value, 0, "a new datapoint is zero", obj)
''' % (LAYOUT,)


def ctx_dpts(tier):
    for cls, (w, fields) in LAYOUT.items():
        for n, lo, fw, enum in fields:
            yield "read", dict(cls=cls, name=n)
            yield "write", dict(cls=cls, name=n)
    yield "temperature", dict(case="other fields")
    for t in (range(0, 512, 37) if tier == "quick" else range(512)):
        yield "temperature", dict(case=t)
    for cls in ("DPT_Switch", "DPT_Alarm", "DPT_UpDown", "DPT_Start", "DPT_Info_Switch", "DPT_Control_Dimming",
                "DPTVimarScene", "DPT_SceneControl", "DPT_Brightness", "DPTSetupClima", "DPTInfoClimaReport",
                "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux", "DPT_Value_Power"):
        yield "sizes", dict(cls=cls)


DESC = '''
LAYOUT = %r
F = D.DPT_Factory()
G = D.Description_Factory()


def pattern(cls, codes):
    """every value of the datapoint with these enumerated codes and no reserved bit"""
    width, fields = LAYOUT[cls]
    v = 0
    k = 0
    for n, lo, w, enum in fields:
        if enum is None:
            v = v | (sym("f_" + n, 0, 2 ** w - 1) << lo)
        else:
            v = v | (codes[k] << lo)
            k += 1
    return v


def describe(cls, codes, temp):
    width, fields = LAYOUT[cls]
    v = pattern(cls, codes)
    if temp is not None:
        v = v | temp
    obj = getattr(D, cls)()
    obj.value = v
    for g in (G, D.Description_Factory):
        name, desc = g.make(obj)
        check_eq(name, cls, "a description names the datapoint type", obj)
        want = [n for n, lo, w, e in fields]
        if cls == "DPT_Brightness":
            want = ["value"]
        if temp is not None:
            want = want + ["temperatura"]
        check_eq(sorted(desc.keys()), sorted(want), "a description has exactly the fields of the datapoint", desc)
        for n, lo, w, enum in fields:
            if cls == "DPT_Brightness":
                check_eq(desc["value"], v, "a described number is the field", desc)
            elif enum is None:
                check_eq(desc[n], (v >> lo) & (2 ** w - 1), "a described number is the field", desc)
            else:
                code = (v >> lo) & (2 ** w - 1)
                first = [x for x, c in enum if c == code][0]
                check_eq(desc[n], first, "a described enumeration is the name of the code", desc)
        check_eq(obj.value, v, "describing does not change the datapoint", obj)
    for f in (F, D.DPT_Factory):
        keep = dict(desc)
        back = f.make(name, desc)
        check_eq(type(back).__name__, cls, "a datapoint made from a description has its type", back)
        check_eq(back.value, v, "a datapoint made from its description has the same value", back)
        check_eq(sorted(desc.items()), sorted(keep.items()), "making a datapoint does not change the description", desc)
        again = f.make(name, desc)
        check_eq(again.value, v, "a second datapoint made from the description has the same value", again)
        check_eq(back.value, v, "making a second datapoint does not change the first", back)
        back.value = 0
        check_eq(obj.value, v, "a datapoint made from a description is a new one", obj)
        check_eq(again.value, v, "every datapoint made from a description is a new one", again)
        other = getattr(D, cls)()
        other.value = 0
        g.make(other)
        check_eq(sorted(desc.items()), sorted(keep.items()), "describing another datapoint does not change a description", desc)
        third = f.make(name, desc)
        check_eq(third.value, v, "what happens to a datapoint made before has no effect on later ones", third)
''' % (LAYOUT,)


def ctx_desc(tier):
    for cls, (w, fields) in LAYOUT.items():
        enums = [sorted(set(c for _, c in e)) for _, _, _, e in fields if e is not None]
        for codes in itertools.product(*enums):
            if cls == "DPTInfoClimaReport":
                temps = (0, 511, 256, 361, 255) if tier == "quick" else range(0, 512, 3)
                for t in temps if codes == (3, 1) else (361,):
                    yield "describe", dict(cls=cls, codes=codes, temp=t)
            else:
                yield "describe", dict(cls=cls, codes=codes, temp=None)


FLOAT = '''
F16 = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux")


def decode16(cls, exp, sign):
    m = sym("mantissa", 0, 2047)
    v = (sign << 15) | (exp << 11) | m
    obj = getattr(D, cls)()
    obj.value = v
    got = obj.decode()
    want = (m - 2048 * sign) * 2 ** exp
    check(abs(got * 100 - want) < 0.25, "a two octet float decodes to a hundredth of mantissa times power", got)
    check_eq(obj.value, v, "decoding does not change the value", obj)


def near(obj, n, per, exp, label):
    """the value of obj, in units of 1/per, against n"""
    got = obj.decode() * per
    step = per // 100 * 2 ** exp
    check(got - n < step, label, obj)
    check(n - got < step, label, obj)


def encode16(cls, exp, sign, per, before):
    """numbers whose magnitude needs this exponent"""
    k = per // 100
    lo = 0 if exp == 0 else 2 ** (10 + exp)
    n = sym("n", lo * k, 2 ** (11 + exp) * k - 1)
    obj = getattr(D, cls)()
    obj.value = before
    other = getattr(D, cls)()
    obj.encode(sign * n / per)
    near(obj, sign * n, per, exp, "a number is encoded with the precision of its exponent")
    check_eq(other.value, 0, "another datapoint is not affected", other)


def refuse16(cls, sign, lo, hi):
    obj = getattr(D, cls)()
    before = sym("before", 0, 65535)
    obj.value = before
    try:
        obj.encode(sign * sym("n", lo, hi) / 100)
        refused = False
    except Exception:
        refused = True
    check(refused, "a number that does not fit is refused", obj)
    check_eq(obj.value, before, "a refused number leaves the value alone", obj)


def again16(cls, exp, sign, lo, hi):
    """encoding a decoded number gives the same number"""
    m = sym("mantissa", lo, hi)
    obj = getattr(D, cls)()
    obj.value = (sign << 15) | (exp << 11) | m
    first = obj.decode()
    back = getattr(D, cls)()
    back.encode(first)
    check(abs(back.decode() * 100 - first * 100) < 0.25, "encoding a decoded number keeps it", back)


def float32(cls):
    v = sym("v", 0, 0x7F7FFFFF)
    obj = getattr(D, cls)()
    obj.value = v
    x = obj.decode()
    check_eq(obj.value, v, "decoding does not change the value", obj)
    back = getattr(D, cls)()
    back.encode(x)
    check_eq(back.value, v, "a four octet float survives decoding and encoding", back)
    check_eq(back.decode(), x, "a four octet float decodes to the number encoded", back)


def known32(cls, value, number):
    obj = getattr(D, cls)()
    obj.value = value
    check_eq(obj.decode(), number, "a four octet float is an IEEE 754 single", obj)
    obj = getattr(D, cls)()
    obj.encode(number)
    check_eq(obj.value, value, "a four octet float is an IEEE 754 single", obj)


def known16(cls, mantissa, exp, sign):
    """the number an encoding denotes, written as a quotient or as decoded, is encoded to it"""
    value = (sign << 15) | (exp << 11) | mantissa
    n = mantissa - 2048 if sign else mantissa
    first = getattr(D, cls)()
    first.value = value
    for number in (n * 2 ** exp / 100, first.decode()):
        obj = getattr(D, cls)()
        obj.encode(number)
        check_eq(obj.value, value, "a number that has an encoding is encoded to it", obj)


def described(cls, exp, sign, lo, hi):
    m = sym("mantissa", lo, hi)
    obj = getattr(D, cls)()
    obj.value = (sign << 15) | (exp << 11) | m
    name, desc = D.Description_Factory.make(obj)
    check_eq(name, cls, "a description names the float datapoint", obj)
    check_eq(sorted(desc.keys()), ["decoded_value"], "a float is described by its number", desc)
    check(abs(desc["decoded_value"] * 100 - (m - 2048 * sign) * 2 ** exp) < 0.25, "a float is described by its number", desc)
    back = D.DPT_Factory.make(name, desc)
    check_eq(type(back).__name__, cls, "a float made from a description has its type", back)
    check(abs(back.decode() * 100 - desc["decoded_value"] * 100) < 0.25, "a float made from its description is the same number", back)
'''


def ctx_float(tier):
    quick = tier == "quick"
    names = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux")
    for e in range(16):
        for sign in (0, 1):
            for i, cls in enumerate(names):
                if not quick or i == (e + sign) % 4:
                    yield "decode16", dict(cls=cls, exp=e, sign=sign)
                    yield "encode16", dict(cls=cls, exp=e, sign=1 - 2 * sign, per=100, before=0x7FFF if sign else 0)
                    yield "encode16", dict(cls=cls, exp=e, sign=1 - 2 * sign, per=1000, before=0xFFFF)
                    # by the number of bits of the magnitude
                    for k in range(11):
                        lo, hi = 2 ** k, 2 ** (k + 1) - 1
                        if sign:
                            lo, hi = 2048 - hi, 2048 - lo
                        yield "again16", dict(cls=cls, exp=e, sign=sign, lo=lo, hi=hi)
                        yield "described", dict(cls=cls, exp=e, sign=sign, lo=lo, hi=hi)
                    yield "again16", dict(cls=cls, exp=e, sign=sign, lo=0, hi=0)
                    yield "described", dict(cls=cls, exp=e, sign=sign, lo=0, hi=0)
    for cls in names[:1] if quick else names:
        for sign in (1, -1):
            for k in range(26, 31 if quick else 32):
                # the last step of the negative side still holds -2048 * 2 ** 15
                lo = 2049 * 2 ** 15 if sign < 0 and k == 26 else 2 ** k
                yield "refuse16", dict(cls=cls, sign=sign, lo=lo, hi=2 ** (k + 1) - 1)
    # quotients that floating point arithmetic rounds below, above and onto the integer
    at = (1, 7, 28, 29, 57, 58, 113, 114, 115, 116, 201, 203, 229, 435, 819, 1001, 1023, 1153, 2047)
    for i, m in enumerate(at):
        for cls in names[i % 4:][:1] if quick else names:
            yield "known16", dict(cls=cls, mantissa=m, exp=0, sign=0)
            yield "known16", dict(cls=cls, mantissa=2048 - m, exp=0, sign=1)
            if m > 1023:
                for e in (1, 7, 15) if quick else range(1, 16):
                    yield "known16", dict(cls=cls, mantissa=m, exp=e, sign=0)
                    yield "known16", dict(cls=cls, mantissa=2048 - m, exp=e, sign=1)
    for cls in ("DPT_Float_32", "DPT_Value_Power"):
        yield "float32", dict(cls=cls)
        for v, x in ((0, 0.0), (0x3F800000, 1.0), (0x45C80000, 6400.0), (0x43FF8000, 511.0), (0xC0A00000, -5.0),
                     (0x3F000000, 0.5), (0xBE800000, -0.25), (0x7F7FFFFF, 3.4028234663852886e+38)):
            yield "known32", dict(cls=cls, value=v, number=x)


PROPS = [
    Prop("C23", "Datapoint fields occupy the prescribed bits and are independent", DPTS, ctx_dpts,
         "for every accessor: the bits read and written are exactly the prescribed range of the free value, every other bit is kept",
         anchors=["knx_stack.datapointtypes"]),
    Prop("C24", "A datapoint survives the round trip through its description", DESC, ctx_desc,
         "for every enumerated code and all other fields free: the description lists exactly the fields, and the datapoint "
         "made from it has the same value",
         anchors=["knx_stack.datapointtypes"]),
    Prop("C25", "Float datapoints denote the standard number in both directions", FLOAT, ctx_float,
         "for every mantissa, exponent and sign the decoded number, and for every number the encoded octets, agree with "
         "0.01 * mantissa * 2 ** exponent within one step; numbers out of range are refused",
         anchors=["knx_stack.datapointtypes"]),
]
