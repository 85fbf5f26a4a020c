from itertools import permutations

from kx.core import Prop
from kx.props.a_encode import ALL, pasts

SIZES = {"DPT_Switch": 0, "DPT_Alarm": 0, "DPT_UpDown": 0, "DPT_Start": 0, "DPT_Info_Switch": 0,
         "DPT_Control_Dimming": 0, "DPTVimarScene": 1, "DPT_SceneControl": 1, "DPT_Brightness": 1,
         "DPTSetupClima": 4, "DPTInfoClimaReport": 4, "DPT_Value_Wsp": 2, "DPT_Value_Temp": 2,
         "DPT_Value_Lux": 2, "DPT_Value_Power": 4}
MEDIA = ("usb_hid", "knxnet_ip")

DELIVERY = '''
def delivery(medium, kind, service, n, rows, objs, target, name, ndata, past=(), info=0, pad=0):
    raws = groups(n)
    ia = sym("ia", 0, 65535)
    typed = [a if isinstance(a, tuple) else (a, name) for a in objs]
    names = dict(typed)
    state = make_state(medium, ia, raws, rows, typed)
    history(state, medium, ia, raws[0], typed[0][0], past)
    src, c1 = sym("src", 0, 65535), sym("ctrl1", 0, 255)
    c2 = 0x80 | sym("ctrl2", 0, 127)
    if target >= 0:
        dst = raws[target]
    else:
        dst = sym("dst", 1, 65535)
        for r in raws:
            assume(dst != r)
    if ndata:
        apdu = [0x00, service << 6] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    elif service:
        apdu = [0x00, (service << 6) | sym("inline", 0, 63)]
    else:
        apdu = [0x00, 0x00]
    got = deliver(medium, state, cemi_any(CODES[kind], c1, c2, src, dst, apdu), "group delivery", info, pad)
    expected = [a for a, idx in rows if target in idx and a in names]
    check_eq(len(got), len(expected), "one message per associated object, none for others", got)
    values = [m.asap.value for m in got]
    for a in expected:
        check(a in values, "every associated object gets the message", got)
    for m in got:
        check(isinstance(m, GROUP_KINDS[(kind, service)]), "kind of the message delivered", m)
        if service:
            check(isinstance(m.dpt, getattr(D, names[m.asap.value])), "datapoint type of the object", m)
'''


INFO = (1, 2, 3, 4, 6, 9, 15, 16, 17, 31, 32, 64, 127, 128, 200)


def extras(medium, most):
    """additional information, and octets after the end of a report, as far as a report of 255 octets allows"""
    for n in INFO:
        if n <= most:
            yield dict(info=n)
    if medium == "usb_hid":
        for n in (1, 2, 8, 44):
            yield dict(pad=n)
        yield dict(info=4, pad=8)


def rows_sets(tier):
    yield 2, ((5, (0,)), (6, (0, 1)), (7, (1,))), (5, 6, 7)
    yield 2, ((6, (1, 0)), (5, (0,))), (5, 7)          # 6 has no datapoint type, 7 no address
    yield 1, ((5, (0,)),), (5,)
    yield 6, ((9, (5, 2, 0, 1, 4, 3)), *((20 + i, (i % 6, (i + 3) % 6)) for i in range(8)), (400, (4,))), \
        (400, *range(20, 28), 9)
    if tier != "quick":
        yield 3, ((9, (0, 2)), (3, (1, 2)), (4, (2,)), (8, ())), (9, 3, 4, 8)
        yield 3, ((1, (2, 1, 0)), (2, (2, 1, 0)), (3, (2, 1, 0))), (1, 2, 3)
        yield 4, ((1, (3,)), (2, (2, 3)), (3, (0, 1)), (4, (1, 3))), (4, 3, 2, 1)


OTHER = ("DPT_Switch", "DPT_Brightness", "DPT_Value_Lux", "DPTSetupClima")


def ctx_delivery(tier):
    for m in MEDIA:
        for more in extras(m, 200):
            for t in (0, -1):
                yield "delivery", dict(medium=m, kind="ind", service=2, n=2, rows=((5, (0,)), (6, (0, 1)), (7, (1,))),
                                       objs=(5, 6, 7), target=t, name="DPT_Value_Temp", ndata=2, **more)
    # objects of several types and sizes, listed in other orders than they were associated in
    orders = [(5, 8, 6, 7), (7, 6, 8, 5), (8, 5, 7, 6)] if tier == "quick" else list(permutations((5, 6, 7, 8)))
    for m in MEDIA:
        for kind, svc in (("ind", 2), ("con", 2), ("ind", 0), ("ind", 1)) if m == "usb_hid" else (("ind", 2),):
            for order in orders:
                for apart in (8, 6) if tier == "quick" else (5, 6, 7, 8):
                    rows = tuple((a, (0,) if a != apart else (1,)) for a in (5, 6, 7, 8))
                    for k in (0, 1) if tier == "quick" else range(4):
                        names = {a: ("DPT_Value_Temp" if a != apart else OTHER[k]) for a in order}
                        if k % 2:
                            names[7] = OTHER[(k + 2) % 4]
                        yield "delivery", dict(medium=m, kind=kind, service=svc, n=2, rows=rows,
                                               objs=tuple((a, names[a]) for a in order), target=0,
                                               name="DPT_Value_Temp", ndata=2 if svc else 0)
    for m in MEDIA:
        for p in pasts(tier):
            for t in (-1, 1):
                yield "delivery", dict(medium=m, kind="ind", service=2, n=2, rows=((5, (0,)), (6, (0, 1)), (7, (1,))),
                                       objs=(5, 6, 7), target=t, name="DPT_Value_Temp", ndata=2, past=p)
    for m in MEDIA:
        for kind in ("ind", "con"):
            for svc in (0, 1, 2):
                for n, rows, objs in rows_sets(tier):
                    for t in range(-1, n):
                        for name in ("DPT_Switch", "DPT_Value_Temp") if tier == "quick" else ALL:
                            yield "delivery", dict(medium=m, kind=kind, service=svc, n=n, rows=rows, objs=objs,
                                                   target=t, name=name, ndata=SIZES[name] if svc else 0)


VALUES = '''
def value(medium, kind, service, name, ndata, others, past=(), info=0, pad=0):
    raws = groups(1)
    dpts = [(5, name)] + [(6 + i, o) for i, o in enumerate(others)]
    rows = [(a, (0,)) for a, o in dpts]
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, rows, dpts)
    history(state, medium, ia, raws[0], 5, past)
    if ndata:
        data = [sym("data%d" % i, 0, 255) for i in range(ndata)]
        exp = 0
        for b in data:
            exp = (exp << 8) | b
        apdu = [0x00, service << 6] + data
    else:
        exp = sym("inline", 0, 63)
        apdu = [0x00, (service << 6) | exp]
    c2 = 0x80 | sym("ctrl2", 0, 127)
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), c2, sym("src", 0, 65535),
                                          raws[0], apdu), "value", info, pad)
    check_eq(len(got), len(dpts), "number of messages", got)
    for m in got:
        if m.asap.value == 5:
            check(type(m.dpt) is getattr(D, name), "the datapoint has the type of the object", m)
            check_eq(m.dpt.value, exp, "decoded datapoint value", m.dpt)


def later(medium, kind, service, name, ndata):
    """a telegram that follows does not change what was delivered before"""
    raws = groups(2)
    state = make_state(medium, sym("ia", 0, 65535), raws, ((5, (0,)), (6, (0, 1))), ((5, name), (6, name)))
    exp = []
    msgs = []
    for k, g in enumerate((0, 1, 0)):
        if ndata:
            data = [sym("data%d_%d" % (k, i), 0, 255) for i in range(ndata)]
            v = 0
            for b in data:
                v = (v << 8) | b
            apdu = [0x00, service << 6] + data
        else:
            v = sym("inline%d" % k, 0, 63)
            apdu = [0x00, (service << 6) | v]
        exp.append(v)
        msgs.append(deliver(medium, state, cemi_any(CODES[kind], 0xBC, 0xE0, sym("src%d" % k, 0, 65535), raws[g], apdu), "value"))
    for k, objs in enumerate(((5, 6), (6,), (5, 6))):
        check_eq(sorted([m.asap.value for m in msgs[k]]), list(objs), "the objects reached", msgs[k])
        for m in msgs[k]:
            check_eq(m.dpt.value, exp[k], "a value delivered stays what it was", m.dpt)
'''


def ctx_value(tier):
    for m in MEDIA:
        for more in extras(m, 200):
            for kind in ("ind", "con"):
                for name in ("DPT_Switch", "DPT_Brightness", "DPT_Value_Temp", "DPT_Value_Power"):
                    yield "value", dict(medium=m, kind=kind, service=2, name=name, ndata=SIZES[name], others=(), **more)
    for m in MEDIA:
        for p in pasts(tier):
            for name in ("DPT_Switch", "DPT_Value_Power"):
                yield "value", dict(medium=m, kind="ind", service=2, name=name, ndata=SIZES[name], others=(), past=p)
    for m in MEDIA:
        for kind in ("ind", "con"):
            for svc in (1, 2):
                for name in ALL:
                    yield "value", dict(medium=m, kind=kind, service=svc, name=name, ndata=SIZES[name], others=())
                    if svc == 2 or tier != "quick":
                        yield "later", dict(medium=m, kind=kind, service=svc, name=name, ndata=SIZES[name])
                    if tier != "quick":
                        for o in ALL:
                            yield "value", dict(medium=m, kind=kind, service=svc, name=name, ndata=SIZES[name],
                                                others=(o, name))


CONFIRM = '''
def confirm(medium, kind, service, name, ndata, info=0, pad=0):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)), (6, (0,))), ((5, name), (6, name)))
    c1 = sym("ctrl1", 0, 255)
    low = sym("ctrl2", 0, 127)
    if kind == "group":
        if service == 0:
            npdu = [0x00, 0x00]
        elif ndata:
            npdu = [0x00, service << 6] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
        else:
            npdu = [0x00, (service << 6) | sym("inline", 0, 63)]
        got = deliver(medium, state, cemi_any(0x2E, c1, 0x80 | low, sym("src", 0, 65535), raws[0], npdu), "confirmation", info, pad)
        check_eq(len(got), 2, "number of confirmations", got)
    else:
        npdu = [0x03, 0xD4 + service] + [sym("data%d" % i, 0, 255) for i in range(4 + ndata)]
        got = deliver(medium, state, cemi_any(0x2E, c1, low, sym("src", 0, 65535), ia, npdu), "confirmation", info, pad)
        check_eq(len(got), 1, "number of confirmations", got)
    for m in got:
        check_eq(int(m.status), c1 & 1, "status of the confirmation", m)
'''


def ctx_confirm(tier):
    for m in MEDIA:
        for more in extras(m, 200):
            yield "confirm", dict(medium=m, kind="group", service=2, name="DPT_Switch", ndata=0, **more)
            yield "confirm", dict(medium=m, kind="property", service=2, name="DPT_Switch", ndata=2, **more)
    for m in MEDIA:
        for svc in (0, 1, 2):
            for name in ("DPT_Switch", "DPT_Value_Temp") if tier == "quick" else ALL:
                yield "confirm", dict(medium=m, kind="group", service=svc, name=name, ndata=SIZES[name])
        for svc in (1, 2, 3):
            for nd in (0, 1, 2, 5, 10, 11, 20, 60) if tier == "quick" else range(60):
                yield "confirm", dict(medium=m, kind="property", service=svc, name="DPT_Switch", ndata=nd)


PROPSVC = '''
def property_service(medium, kind, service, addressed, ndata, past=(), info=0, pad=0):
    ia = sym("ia", 0, 65535)
    raws = groups(1)
    state = make_state(medium, ia, raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    history(state, medium, ia, raws[0], 5, past)
    other = sym("other", 0, 65535)
    peer = sym("peer", 0, 65535)
    mine = ia
    if not addressed:
        assume(other != ia)
        mine = other
    h = [sym("h%d" % i, 0, 255) for i in range(4)]
    data = [sym("data%d" % i, 0, 255) for i in range(ndata)]
    npdu = [0x03, 0xD4 + service] + h + data
    if kind == "ind":
        src, dst = mine, peer
    else:
        src, dst = peer, mine
    c1 = sym("ctrl1", 0, 255)
    got = deliver(medium, state, cemi_any(CODES[kind], c1, sym("ctrl2", 0, 127), src, dst, npdu), "property service", info, pad)
    if not addressed:
        check_eq(len(got), 0, "a frame for another device is not reported", got)
    else:
        check_eq(len(got), 1, "one message per property frame", got)
        m = got[0]
        check(isinstance(m, PROP_KINDS[(kind, service)]), "kind of property message", m)
        check_eq(m.asap.value, 0, "property messages belong to object 0", m)
        check_eq(m.object_index, h[0], "object index", m)
        check_eq(m.property_id, h[1], "property id", m)
        check_eq(m.number_of_elements, h[2] >> 4, "number of elements", m)
        check_eq(m.start_index, ((h[2] & 15) << 8) | h[3], "start index", m)
        if service > 1:
            same_octets(octets(m.data), data, "property data")
'''


def ctx_propsvc(tier):
    for m in MEDIA:
        for more in extras(m, 200):
            for kind in ("ind", "con"):
                for svc, nd in ((1, 0), (2, 1), (3, 10)):
                    yield "property_service", dict(medium=m, kind=kind, service=svc, addressed=1, ndata=nd, **more)
            yield "property_service", dict(medium=m, kind="ind", service=2, addressed=0, ndata=2, **more)
    for m in MEDIA:
        for p in pasts(tier):
            yield "property_service", dict(medium=m, kind="ind", service=3, addressed=1, ndata=2, past=p)
    for m in MEDIA:
        for kind in ("ind", "con"):
            for svc in (1, 2, 3):
                for adr in (1, 0):
                    for nd in ((0,) if svc == 1 else (*range(1, 21), 40, 64, 130, 200) if tier == "quick" else (*range(0, 60), 127, 128, 200, 230)):
                        yield "property_service", dict(medium=m, kind=kind, service=svc, addressed=adr, ndata=nd)


PROPS = [
    Prop("C07", "A group frame reaches exactly the objects associated to its address", DELIVERY, ctx_delivery,
         "for a frame of free source, destination, control octets and payload, the messages returned are one per "
         "object that is associated to the destination and has a datapoint type, of the class of the service"),
    Prop("C08", "The datapoint value delivered is exactly the value in the frame", VALUES, ctx_value,
         "the value of the delivered datapoint is, bit by bit, the value carried by the frame, for every payload"),
    Prop("C09", "Confirmations report the confirm flag of the frame", CONFIRM, ctx_confirm,
         "status of every confirmation message is bit 0 of the first control octet, for every frame content"),
    Prop("C10", "Property frames are decoded field by field and only for this device", PROPSVC, ctx_propsvc,
         "object index, property id, count, start index and data are the prescribed bits of the frame; frames "
         "of other devices yield nothing"),
]
