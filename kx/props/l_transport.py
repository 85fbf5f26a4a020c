from kx.core import Prop

CONTROL = '''
import knx_stack.encode.layer.transport.t_connect.req
import knx_stack.encode.layer.transport.t_disconnect.req
TR = knx_stack.encode.layer.transport


def control(medium, what, past):
    """opening and closing a transport connection, after other operations"""
    ia = sym("ia", 0, 65535)
    raws = groups(2)
    state = make_state(medium, ia, raws, ((5, (0,)), (6, (1,))), ((5, "DPT_Value_Temp"), (6, "DPT_Switch")))
    history(state, medium, ia, raws[0], 5, [p for p in past if p not in ("connect", "disconnect")])
    for p in past:
        if p in ("connect", "disconnect"):
            encoder(p)(state, knx_stack.Msg([]))
    tables = table_view(state)
    arg = knx_stack.Msg([])
    out = encoder(what)(state, arg)
    cemi = [0x11, 0x00, 0x96, 0x60, 0x00, 0x00, ia >> 8, ia & 255, 0x00, 0x80 if what == "connect" else 0x81]
    same_octets(octets(out), wrap(medium, state, cemi), "the control frame")
    check_eq(len(arg), 0, "the argument is not changed", arg)
    check_eq(table_view(state), tables, "the tables are not changed", state)
    # and it leaves nothing behind for the frames that follow
    v = sym("value", 0, 65535)
    dpt = D.DPT_Value_Temp()
    dpt.value = v
    out = knx_stack.encode_msg(state, A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
    same_octets(octets(out), wrap(medium, state, cemi_group(0x11, raws[0], [0x00, 0x80, v >> 8, v & 255])), "the group write that follows")
    out = knx_stack.encode_msg(state, A.a_property_value_read.req.Msg(asap=knx_stack.ASAP(0), object_index=sym("oi", 0, 255), property_id=3,
                                                                     number_of_elements=1, start_index=1))
    check_eq(octets(out)[-5:], [0xD5, sym("oi", 0, 255), 3, 0x10, 1], "the property read that follows", out)


def encoder(what):
    return TR.t_connect.req.encode if what == "connect" else TR.t_disconnect.req.encode


def ignored(medium, kind, tpci, n):
    """transport control frames from the bus are no service of a communication object"""
    ia = sym("ia", 0, 65535)
    raws = groups(1)
    state = make_state(medium, ia, raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    before = table_view(state)
    src, dst = sym("src", 0, 65535), ia
    if kind == "con":
        src, dst = ia, sym("dst", 0, 65535)
    got = deliver(medium, state, cemi_any(CODES[kind], sym("c1", 0, 255), sym("c2", 0, 127), src, dst,
                                          [tpci] + [sym("d%d" % i, 0, 255) for i in range(n)]), "control frame received")
    check_eq(len(got), 0, "a control frame is no service", got)
    check_eq(table_view(state), before, "the tables are not changed", state)
'''


def ctx_control(tier):
    past = [(), ("write",), ("read",), ("pread",), ("connect",), ("disconnect",), ("rgroup",), ("rprop",), ("refused",), ("write", "disconnect"),
            ("pwrite", "rother", "connect")]
    for m in ("usb_hid", "knxnet_ip", "tp"):
        for what in ("connect", "disconnect"):
            for p in past if tier != "quick" or m != "tp" else past[:6]:
                yield "control", dict(medium=m, what=what, past=p)
    for m in ("usb_hid", "knxnet_ip"):
        for kind in ("ind", "con"):
            for tpci in (0x80, 0x81):
                yield "ignored", dict(medium=m, kind=kind, tpci=tpci, n=0)


PROPS = [
    Prop("C38", "Transport connection control frames are exact and leave nothing behind", CONTROL, ctx_control,
         "for every individual address, medium and preceding operation: the T_Connect and T_Disconnect frames are the standard ones and "
         "the next group write and property read are unaffected; received ones deliver nothing",
         anchors=["knx_stack.encode.layer.transport"]),
]
