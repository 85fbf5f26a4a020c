from kx.core import Prop

SPEC = '''
def setup(medium, name):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)), (6, (0,))), ((5, name), (6, name)))
    return raws, ia, state


def group_service(medium, kind, top, low, ndata, name, odd):
    """a telegram to an associated group address; top: the four bits of the application service, low: its six other bits"""
    raws, ia, state = setup(medium, name)
    high = 0
    if odd:
        high = sym("tpci", 0, 63)
        assume(high != 0)
    inline = 0
    if low == "zero":
        inline = 0
    elif low == "other":
        inline = sym("inline", 1, 63)
    else:
        inline = sym("inline", 0, 63)
    npdu = [(high << 2) | (top >> 2), ((top & 3) << 6) | inline] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    before = view_tables(state)
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535),
                                          raws[0], npdu), "group telegram")
    if odd or top > 2 or (top == 0 and low != "zero"):
        check_eq(len(got), 0, "a telegram which is no group read, response or write is not delivered", got)
    else:
        check_eq(sorted([m.asap.value for m in got]), [5, 6], "a group read, response or write is delivered", got)
        for m in got:
            check(isinstance(m, GROUP_KINDS[(kind, top)]), "the kind of message is that of the service", m)
    check_eq(view_tables(state), before, "receiving a telegram changes no table", state)


def view_tables(state):
    return table_view(state)


def individual_service(medium, kind, top, ndata):
    """a telegram between individual addresses, both of them this device's; top: the two highest bits of the application service"""
    raws, ia, state = setup(medium, "DPT_Switch")
    code = sym("service", 0, 255)
    if top == 3:
        for k in (0xD5, 0xD6, 0xD7):
            assume(code != k)
    npdu = [top, code] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), ia, ia, npdu), "individual telegram")
    check_eq(len(got), 0, "a telegram which is no property service is not reported as one", got)


def property_service(medium, kind, service, ndata):
    raws, ia, state = setup(medium, "DPT_Switch")
    npdu = [0x03, 0xD4 + service] + [sym("data%d" % i, 0, 255) for i in range(4 + ndata)]
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), ia, ia, npdu), "property telegram")
    check_eq(len(got), 1, "a property service is reported", got)
    check(isinstance(got[0], PROP_KINDS[(kind, service)]), "the kind of message is that of the service", got[0])


def acknowledged(medium, kind, what):
    """transport acknowledges carry nothing"""
    raws, ia, state = setup(medium, "DPT_Switch")
    npdu = [(0xC2 if what == "ack" else 0xC3) | (sym("seq", 0, 15) << 2)]
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), ia, ia, npdu), "transport acknowledge")
    check_eq(len(got), 0, "a transport acknowledge is no message", got)


def broadcast(medium, kind, top, ndata):
    raws, ia, state = setup(medium, "DPT_Switch")
    npdu = [top >> 2, ((top & 3) << 6) | sym("inline", 0, 63)] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535),
                                          0, npdu), "broadcast")
    check_eq(len(got), 0, "a broadcast reaches no communication object", got)


def message_code(medium, group, info):
    raws, ia, state = setup(medium, "DPT_Switch")
    code = sym("code", 0, 255)
    assume(code != 0x29)
    assume(code != 0x2E)
    if group:
        cemi = cemi_any(code, sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535), raws[0],
                        [0x00, 0x80 | sym("inline", 0, 63)])
    else:
        cemi = cemi_any(code, sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), ia, ia, [0x03, 0xD6, 1, 2, 0x10, 1, sym("data", 0, 255)])
    got = deliver(medium, state, cemi, "another message code", info)
    check_eq(len(got), 0, "only indications and confirmations of the data link layer are telegrams", got)
'''


def contexts(tier):
    q = tier == "quick"
    for m in ("usb_hid", "knxnet_ip"):
        for kind in ("ind", "con"):
            for top in range(16):
                for odd in (0, 1):
                    for low in ("zero", "other"):
                        yield "group_service", dict(medium=m, kind=kind, top=top, low=low, ndata=0, name="DPT_Switch", odd=odd)
                    if top:
                        for nd, name in ((2, "DPT_Value_Temp"),) if q else ((1, "DPT_Brightness"), (2, "DPT_Value_Temp"), (4, "DPT_Value_Power")):
                            yield "group_service", dict(medium=m, kind=kind, top=top, low="zero", ndata=nd, name=name, odd=odd)
            for top in range(4):
                for nd in (4, 6) if q else range(4, 16):
                    yield "individual_service", dict(medium=m, kind=kind, top=top, ndata=nd)
                    if top < 3:
                        yield "individual_service", dict(medium=m, kind=kind, top=top, ndata=nd - 4)
            for svc in (1, 2, 3):
                for nd in (0, 2):
                    yield "property_service", dict(medium=m, kind=kind, service=svc, ndata=nd)
            for what in ("ack", "nack"):
                yield "acknowledged", dict(medium=m, kind=kind, what=what)
            for top in range(16):
                for nd in (0, 2):
                    yield "broadcast", dict(medium=m, kind=kind, top=top, ndata=nd)
        for group in (0, 1):
            for info in (0, 4):
                yield "message_code", dict(medium=m, group=group, info=info)


PROPS = [
    Prop("C46", "Only the services the stack supports yield service messages, each its own", SPEC, contexts,
         "for every application service code, transport control octet and message code: group read, response and write in an unnumbered "
         "data telegram to an associated group address, and property services of this device, yield messages of exactly that kind; "
         "everything else yields none",
         anchors=["knx_stack.decode.layer.transport.t_data_group", "knx_stack.decode.layer.transport.t_data_individual"]),
]
