from kx.core import Prop
from kx.props.b_decode import ALL, SIZES
from kx.props.h_msgs import MESSAGES, KINDS

PURE = MESSAGES + '''
def fields(msg):
    """the observable content of a message"""
    out = [type(msg).__name__]
    for f in msg:
        if type(f).__name__ in DSIZE:
            out.append([type(f).__name__, f.value])
        elif isinstance(f, knx_stack.ASAP):
            out.append([f.value, f.name])
        elif isinstance(f, knx_stack.Address):
            out.append(f.free_style)
        elif isinstance(f, knx_stack.Msg):
            out.append(octets(f))
        else:
            out.append(f)
    return out


def encode_twice(medium, kind):
    state = a_state(medium)
    msg = request(kind)
    asked = fields(msg)
    before = view(state)
    remote = state.sequence_counter_remote
    one = knx_stack.encode_msg(state, msg)
    first = octets(one)
    check_eq(fields(msg), asked, "encoding does not change the request", msg)
    state.sequence_counter_remote = remote
    check_eq(view(state), before, "encoding does not change tables or connection", state)
    two = knx_stack.encode_msg(state, msg)
    check_eq(octets(two), first, "encoding the same request in the same state gives the same octets", two)
    one[0].value = 0x5A
    one[-1].value = 0xA5
    one.append(knx_stack.Octect(value=1))
    check_eq(octets(two), first, "messages encoded separately share no octet", two)
    check_eq(fields(msg), asked, "the encoded message shares nothing with the request", msg)
    state.sequence_counter_remote = remote
    three = knx_stack.encode_msg(state, msg)
    check_eq(octets(three), first, "changing an encoded message has no effect on later ones", three)


def encode_after(medium, kind, others):
    """what was encoded or refused before has no effect on the octets of a request"""
    state = a_state(medium)
    fresh = a_state(medium)
    channel = sym("channel", 0, 255)
    state.communication_channel_id = channel
    fresh.communication_channel_id = channel
    local = sym("local", 0, 255)
    remote = sym("remote", 0, 255)
    msg = request(kind)
    for o in others:
        if o == "refused":
            try:
                knx_stack.encode_msg(state, A.a_group_value_read.ind.Msg(asap=knx_stack.ASAP(5)))
            except Exception:
                pass
        elif o == "unknown":
            try:
                knx_stack.encode_msg(state, A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(77)))
            except Exception:
                pass
        else:
            knx_stack.encode_msg(state, request(o))
    for s in (state, fresh):
        s.sequence_counter_local = local
        s.sequence_counter_remote = remote
    check_eq(view(state), view(fresh), "requests leave tables and connection alone", state)
    want = octets(knx_stack.encode_msg(fresh, request(kind)))
    check_eq(octets(knx_stack.encode_msg(state, msg)), want, "a request after others is encoded as in a new stack", state)


def same_value(name, medium):
    """the datapoint of a request belongs to the caller"""
    raws = groups(1, 0)
    state = make_state(medium, sym("ia", 0, 65535), raws, ((5, (0,)),), ((5, name),))
    dpt = getattr(D, name)()
    v = value_of(name, "value")
    dpt.value = v
    msg = A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt)
    one = octets(knx_stack.encode_msg(state, msg))
    check_eq(dpt.value, v, "encoding does not change the datapoint", dpt)
    w = value_of(name, "later")
    dpt.value = w
    two = knx_stack.encode_msg(state, msg)
    exp = wrap(medium, state, cemi_group(0x11, raws[0], apdu_of(0x80, name, w)))
    same_octets(octets(two), exp, "the value encoded is the one the datapoint has now")


def decode_twice(medium, kind, service, name, ndata):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)), (6, (0,))), ((5, name), (6, name)))
    data = [sym("data%d" % i, 0, 255) for i in range(ndata)]
    if service == 0:
        npdu = [0x00, 0x00]
    elif ndata:
        npdu = [0x00, service << 6] + data
    else:
        npdu = [0x00, (service << 6) | sym("inline", 0, 63)]
    o = incoming(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535),
                                         raws[0], npdu))
    m = medframe(medium, o)
    before = view(state)
    one = knx_stack.decode_msg(state, m)
    check_eq(octets(m), o, "decoding does not change the frame", m)
    check_eq(view(state), before, "decoding a group frame does not change tables or connection", state)
    first = [fields(x) for x in one]
    two = knx_stack.decode_msg(state, m)
    check_eq([fields(x) for x in two], first, "decoding the same frame in the same state gives the same messages", state)
    check(one is not two, "every call returns a list of its own", state)
    one.append(None)
    if service:
        for x in one[-3:-1]:
            x.dpt.value = 0
        check_eq([fields(x) for x in two], first, "messages decoded separately share no datapoint", state)
        was = fields(two[-2])
        two[-1].dpt.value = 0
        check_eq(fields(two[-2]), was, "the objects a frame reaches share no datapoint", state)
    for x in m:
        x.value = 0
    three = knx_stack.decode_msg(state, medframe(medium, o))
    check_eq([fields(x) for x in three], first, "changing what was decoded has no effect on later messages", state)


def two_stacks(medium, order):
    """states made separately do not influence each other"""
    raws = groups(2)
    ia, ib = sym("ia", 0, 65535), sym("ib", 0, 65535)
    a = make_state(medium, ia, raws, ((5, (0,)), (6, (1,))), ((5, "DPT_Value_Temp"), (6, "DPT_Value_Wsp")))
    b = make_state(medium, ib, raws, ((5, (1,)), (7, (0,))), ((5, "DPT_Value_Wsp"), (7, "DPT_Value_Temp")))
    both = {"a": (a, raws[0], raws[1], (5, 6), (D.DPT_Value_Temp, D.DPT_Value_Wsp)),
            "b": (b, raws[1], raws[0], (5, 7), (D.DPT_Value_Wsp, D.DPT_Value_Temp))}
    for n, (which, what) in enumerate(order):
        state, first, second, objs, types = both[which]
        other = b if which == "a" else a
        others = view(other)
        if what == "write":
            v = sym("v%d" % n, 0, 65535)
            dpt = D.DPT_Value_Temp()
            dpt.value = v
            out = knx_stack.encode_msg(state, A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
            same_octets(octets(out), wrap(medium, state, cemi_group(0x11, first, [0x00, 0x80, v >> 8, v & 255])), "frame of one of two stacks")
        elif what == "ind":
            v = sym("v%d" % n, 0, 65535)
            for dst, obj, typ in ((first, objs[0], types[0]), (second, objs[1], types[1])):
                got = deliver(medium, state, cemi_any(0x29, 0xBC, 0xE0, sym("src%d" % n, 0, 65535), dst, [0x00, 0x80, v >> 8, v & 255]), "two stacks")
                check_eq([(m.asap.value, type(m.dpt), m.dpt.value) for m in got], [(obj, typ, v)], "messages of one of two stacks", state)
        elif what == "table":
            state.association_table.associate(knx_stack.ASAP(20 + n), [gaddr(second)])
            state.datapointtypes.associate(knx_stack.ASAP(30 + n), D.DPT_Switch)
        elif what == "count":
            state.sequence_counter_remote = sym("c%d" % n, 0, 255)
            state.sequence_counter_local = sym("l%d" % n, 0, 255)
            if medium == "knxnet_ip":
                state.communication_channel_id = sym("ch%d" % n, 0, 255)
        check_eq(view(other), others, "what happens in one stack does not show in another", other)


def defaults():
    """nothing is shared through default arguments"""
    x = knx_stack.AssociationTable(knx_stack.AddressTable(knx_stack.Address(1), [], 255))
    y = knx_stack.AssociationTable(knx_stack.AddressTable(knx_stack.Address(1), [], 255))
    x.associate(knx_stack.ASAP(5), [gaddr(sym("ga", 2, 65535))])
    check_eq([a.value for a in y.asaps], [0], "tables made separately share nothing", y)
    g, h = knx_stack.GroupObjectTable(), knx_stack.GroupObjectTable()
    g.associate(knx_stack.ASAP(5), D.DPT_Switch)
    check_eq(len(h.associations), 0, "tables made separately share nothing", h)
    m, n = D.DPT_Switch(), D.DPT_Switch()
    m.value = sym("v", 0, 63)
    check_eq(n.value, 0, "datapoints made separately share nothing", n)
    given = [knx_stack.GroupAddress(free_style=3)]
    t = knx_stack.AddressTable(knx_stack.Address(1), given, 255)
    t.add(gaddr(sym("gb", 4, 65535)))
    check_eq(len(given), 1, "a table does not change the list it is made from", t)
    o = [knx_stack.Octect(value=sym("o", 0, 255))]
    p = knx_stack.Msg(o)
    p.append(knx_stack.Octect(value=1))
    check_eq(len(o), 1, "a message does not change the list it is made from", p)
'''


def ctx_pure(tier):
    yield "defaults", {}
    for k in KINDS:
        for m in (("knxnet_ip",) if k in KINDS[:5] else ("knxnet_ip", "usb_hid", "tp")):
            yield "encode_twice", dict(medium=m, kind=k)
    more = KINDS + ("refused", "unknown")
    for m in ("knxnet_ip", "usb_hid", "tp"):
        for k in KINDS:
            for o in more:
                if m != "knxnet_ip" and (k in KINDS[:5] or o in KINDS[:5]):
                    continue
                yield "encode_after", dict(medium=m, kind=k, others=(o,))
                if tier != "quick":
                    for p in more:
                        if m == "knxnet_ip" or p not in KINDS[:5]:
                            yield "encode_after", dict(medium=m, kind=k, others=(o, p))
    for m in ("usb_hid", "knxnet_ip", "tp"):
        for name in ALL:
            yield "same_value", dict(name=name, medium=m)
    for m in ("usb_hid", "knxnet_ip"):
        for kind in ("ind", "con"):
            for svc in (0, 1, 2):
                for name in ("DPT_Switch", "DPT_Value_Temp") if tier == "quick" else ALL:
                    yield "decode_twice", dict(medium=m, kind=kind, service=svc, name=name, ndata=SIZES[name] if svc else 0)
        base = [("a", "write"), ("b", "write"), ("a", "ind"), ("b", "ind"), ("a", "table"), ("b", "count")]
        for x in base:
            for y in base:
                if tier == "quick":
                    yield "two_stacks", dict(medium=m, order=(x, y, ("a", "ind"), ("b", "write"), ("b", "ind"), ("a", "write")))
                else:
                    for z in base:
                        yield "two_stacks", dict(medium=m, order=(x, y, z, ("a", "ind"), ("b", "write"), ("b", "ind"), ("a", "write")))


PROPS = [
    Prop("C36", "Encoding and decoding are functions of message, tables and connection, without side effects", PURE, ctx_pure,
         "for all field values: repeating an operation gives the same result, arguments and tables keep their observable content, "
         "results share no mutable part with arguments or with each other, separate stacks do not influence each other",
         anchors=["knx_stack"]),
]
