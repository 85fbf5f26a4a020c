from kx.core import Prop

LAYOUTS = {
    # asap -> associated address indices, in association order
    "one": (1, ((5, (0,)),)),
    "second": (2, ((5, (1, 0)), (6, (0,)))),
    "large": (9, ((4, (8, 3, 0, 5, 7, 1, 2, 6, 4)), (5, (4, 2)), *((10 + i, (i,)) for i in range(9)), (300, (6,)))),
    "third": (3, ((4, (2,)), (5, (1, 2)), (6, (0, 1, 2)))),
}
ALL = ("DPT_Switch", "DPT_Alarm", "DPT_UpDown", "DPT_Start", "DPT_Info_Switch", "DPT_Control_Dimming",
       "DPTVimarScene", "DPT_SceneControl", "DPT_Brightness", "DPTSetupClima", "DPTInfoClimaReport",
       "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux", "DPT_Value_Power")
MEDIA = ("usb_hid", "knxnet_ip", "tp")


PAST = ("write", "ind", "read", "pread", "pwrite", "refused", "rgroup", "rother", "rprop", "cprop")


LONG = (PAST * 2, ("write",) * 12, ("rgroup",) * 12, ("rother", "write", "refused", "rprop") * 5)


def pasts(tier):
    for a in PAST:
        yield (a,)
    for p in LONG:
        yield p
    if tier != "quick":
        for a in PAST:
            for b in PAST:
                yield (a, b)
        for a in PAST:
            for b in PAST:
                yield (a, "write", b)


def ctx_write(tier):
    names = ALL
    n, rows = LAYOUTS["second"]
    for m in MEDIA:
        for p in pasts(tier):
            for d in ("DPT_Switch", "DPT_Value_Temp"):
                yield "group_write", dict(medium=m, name=d, kind="req", n=n, rows=rows, past=p)
    for m in MEDIA:
        for d in names:
            for kind in ("req", "ind"):
                for lay in (("second",) if tier == "quick" and d != "DPT_Value_Temp" else sorted(LAYOUTS)):
                    n, rows = LAYOUTS[lay]
                    yield "group_write", dict(medium=m, name=d, kind=kind, n=n, rows=rows)


WRITE = '''
def group_write(medium, name, kind, n, rows, past=()):
    raws = groups(n, 0)
    ia = sym("ia", 0, 65535)
    dpts = [(a, name) for a, idx in rows]
    state = make_state(medium, ia, raws, rows, dpts)
    history(state, medium, ia, raws[0], rows[-1][0], past)
    dpt = getattr(D, name)()
    value = value_of(name, "value")
    dpt.value = value
    for a, idx in rows:
        if kind == "req":
            msg = knx_stack.layer.application.a_group_value_write.req.Msg(asap=knx_stack.ASAP(a), dpt=dpt)
            code = 0x11
            out = knx_stack.encode_msg(state, msg)
        else:
            msg = knx_stack.layer.application.a_group_value_write.ind.Msg(asap=knx_stack.ASAP(a), dpt=dpt)
            code = 0x29
            out = knx_stack.encode_msg(state, msg)
        exp = wrap(medium, state, cemi_group(code, raws[idx[0]], apdu_of(0x80, name, value)))
        same_octets(octets(out), exp, "encoded group write frame")
'''


READ = """
def group_read(medium, n, rows, name, past=()):
    raws = groups(n, 0)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, rows, [(a, name) for a, idx in rows])
    history(state, medium, ia, raws[0], rows[-1][0], past)
    for a, idx in rows:
        msg = knx_stack.layer.application.a_group_value_read.req.Msg(asap=knx_stack.ASAP(a))
        out = knx_stack.encode_msg(state, msg)
        exp = wrap(medium, state, cemi_group(0x11, raws[idx[0]], [0x00, 0x00]))
        same_octets(octets(out), exp, "encoded group read frame")


def no_address(medium, name):
    # an object without group address has no frame: nothing malformed may be produced
    raws = groups(1, 0)
    state = make_state(medium, sym("ia", 0, 65535), raws, ((5, ()), (6, (0,))), [(5, name), (6, name)])
    dpt = getattr(D, name)()
    try:
        out = knx_stack.encode_msg(state, knx_stack.layer.application.a_group_value_read.req.Msg(asap=knx_stack.ASAP(5)))
    except Exception:
        out = None
    check(out is None, "no frame for an object without group address")
    try:
        out = knx_stack.encode_msg(state, knx_stack.layer.application.a_group_value_write.req.Msg(
            asap=knx_stack.ASAP(5), dpt=dpt))
    except Exception:
        out = None
    check(out is None, "no frame for an object without group address")
"""


def ctx_read(tier):
    n, rows = LAYOUTS["second"]
    for m in MEDIA:
        for p in pasts(tier):
            yield "group_read", dict(medium=m, n=n, rows=rows, name="DPT_Switch", past=p)
    for m in MEDIA:
        for lay in sorted(LAYOUTS):
            n, rows = LAYOUTS[lay]
            for d in (ALL if tier != "quick" else ("DPT_Switch", "DPT_Value_Temp")):
                yield "group_read", dict(medium=m, n=n, rows=rows, name=d)
        yield "no_address", dict(medium=m, name="DPT_Switch")


PROPERTY = """
def cemi_ind(dst, apdu):
    return [0x11, 0x00, 0x96, 0x60, 0x00, 0x00, dst >> 8, dst & 255, len(apdu) - 1] + apdu


def property_req(medium, ndata, past=()):
    ia = sym("ia", 0, 65535)
    raws = groups(1, 0)
    state = make_state(medium, ia, raws, ((5, (0,)),), ((5, "DPT_Value_Temp"),))
    history(state, medium, ia, raws[0], 5, past)
    oi, pid = sym("object_index", 0, 255), sym("property_id", 0, 255)
    ne, si = sym("number_of_elements", 0, 15), sym("start_index", 0, 4095)
    head = [oi, pid, (ne << 4) | (si >> 8), si & 255]
    data = [sym("data%d" % i, 0, 255) for i in range(ndata)]
    if ndata == 0:
        msg = knx_stack.layer.application.a_property_value_read.req.Msg(
            asap=knx_stack.ASAP(0), object_index=oi, property_id=pid, number_of_elements=ne, start_index=si)
        out = knx_stack.encode_msg(state, msg)
        exp = wrap(medium, state, cemi_ind(ia, [0x03, 0xD5] + head))
        same_octets(octets(out), exp, "encoded property read frame")
    if ndata > 0 or medium == "tp":
        msg = knx_stack.layer.application.a_property_value_write.req.Msg(
            asap=knx_stack.ASAP(0), object_index=oi, property_id=pid, number_of_elements=ne, start_index=si,
            data=str(frame(data)))
        out = knx_stack.encode_msg(state, msg)
        exp = wrap(medium, state, cemi_ind(ia, [0x03, 0xD7] + head + data))
        same_octets(octets(out), exp, "encoded property write frame")
"""


def ctx_prop(tier):
    for m in MEDIA:
        for p in pasts(tier):
            for nd in (0, 2):
                yield "property_req", dict(medium=m, ndata=nd, past=p)
    for m in MEDIA:
        top = 231 if m == "usb_hid" else 250
        for nd in (*range(0, 20), 64, 128, top) if tier == "quick" else (*range(0, 60), 127, 128, 200, 220, 230, top):
            yield "property_req", dict(medium=m, ndata=nd)


LENGTHS = """
def lengths(medium, kind, name, ndata):
    raws = groups(1, 0)
    state = make_state(medium, sym("ia", 0, 65535), raws, ((5, (0,)),), [(5, name)])
    app = knx_stack.layer.application
    asap = knx_stack.ASAP(5)
    dpt = getattr(D, name)()
    dpt.value = value_of(name, "value")
    head = dict(object_index=sym("oi", 0, 255), property_id=sym("pid", 0, 255),
                number_of_elements=sym("ne", 0, 15), start_index=sym("si", 0, 4095))
    if kind == "write":
        msg = app.a_group_value_write.req.Msg(asap=asap, dpt=dpt)
    elif kind == "ind":
        msg = app.a_group_value_write.ind.Msg(asap=asap, dpt=dpt)
    elif kind == "read":
        msg = app.a_group_value_read.req.Msg(asap=asap)
    elif kind == "pread":
        msg = app.a_property_value_read.req.Msg(asap=knx_stack.ASAP(0), **head)
    else:
        msg = app.a_property_value_write.req.Msg(
            asap=knx_stack.ASAP(0), data=str(frame([sym("d%d" % i, 0, 255) for i in range(ndata)])), **head)
    out = octets(knx_stack.encode_msg(state, msg))
    if medium == "usb_hid":
        check_eq(out[2], len(out) - 3, "USB report length", out[2])
        check_eq(out[4], 8, "USB transfer header length", out[4])
        check_eq((out[5] << 8) | out[6], len(out) - 11, "USB transfer body length", out[6])
        cemi = out[11:]
    elif medium == "knxnet_ip":
        check_eq(out[0], 6, "KNXnet/IP header length", out[0])
        check_eq((out[4] << 8) | out[5], len(out), "KNXnet/IP total length", out[5])
        check_eq(out[6], 4, "connection header length", out[6])
        cemi = out[10:]
    else:
        cemi = out
    check_eq(cemi[8], len(cemi) - 10, "NPDU length", cemi[8])


def core_lengths(kind):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1, 0), ((5, (0,)),), ())
    ip = socket.inet_ntoa(bytes([sym("ip%d" % i, 0, 255) for i in range(4)]))
    port = sym("port", 0, 65535)
    core = knx_stack.knxnet_ip.core
    if kind == "connect":
        msg = core.connect.req.Msg(addr_control_endpoint=ip, port_control_endpoint=port,
                                   addr_data_endpoint=ip, port_data_endpoint=port)
    elif kind == "disconnect":
        msg = core.disconnect.req.Msg(addr_control_endpoint=ip, port_control_endpoint=port)
    elif kind == "connectionstate":
        msg = core.connectionstate.req.Msg(addr_control_endpoint=ip, port_control_endpoint=port)
    elif kind == "search":
        msg = core.search.req.Msg(addr=ip, port=port)
    else:
        msg = knx_stack.knxnet_ip.tunneling.ack.Msg(sequence_counter=sym("seq", 0, 255), status=Err.E_NO_ERROR)
    out = octets(knx_stack.encode_msg(state, msg))
    check_eq(out[0], 6, "KNXnet/IP header length", out[0])
    check_eq((out[4] << 8) | out[5], len(out), "KNXnet/IP total length", out[5])
    at = {"connect": 6, "disconnect": 8, "connectionstate": 8, "search": 6, "ack": 6}[kind]
    check_eq(out[at], 4 if kind == "ack" else 8, "structure length octet", out[at])
    if kind == "connect":
        check_eq(out[14], 8, "second endpoint length octet", out[14])
        check_eq(out[22], len(out) - 22, "connection request information length", out[22])
"""


def ctx_len(tier):
    for m in MEDIA:
        for d in ALL:
            yield "lengths", dict(medium=m, kind="write", name=d, ndata=0)
            yield "lengths", dict(medium=m, kind="ind", name=d, ndata=0)
            if tier != "quick":
                yield "lengths", dict(medium=m, kind="read", name=d, ndata=0)
        yield "lengths", dict(medium=m, kind="read", name="DPT_Switch", ndata=0)
        yield "lengths", dict(medium=m, kind="pread", name="DPT_Switch", ndata=0)
        # up to the most an octet can count: 255 octets of NPDU, 255 octets of USB report
        top = 231 if m == "usb_hid" else 250
        for nd in (0, 1, 2, 4, 10, 11, 12, 15, 16, 17, 33, 54, 64, 100, 128, 220, 230, 231, top) if tier == "quick" else range(0, top + 1):
            yield "lengths", dict(medium=m, kind="pwrite", name="DPT_Switch", ndata=nd)
    for k in ("connect", "disconnect", "connectionstate", "search", "ack"):
        yield "core_lengths", dict(kind=k)


CORE = """
def hpai(ip, port):
    return [0x08, 0x01] + ip + [port >> 8, port & 255]


def core_req(kind):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1, 0), ((5, (0,)),), ())
    ip = [sym("ip%d" % i, 0, 255) for i in range(4)]
    ip2 = [sym("data_ip%d" % i, 0, 255) for i in range(4)]
    port, port2 = sym("port", 0, 65535), sym("data_port", 0, 65535)
    a1, a2 = socket.inet_ntoa(bytes(ip)), socket.inet_ntoa(bytes(ip2))
    core = knx_stack.knxnet_ip.core
    chan = state.communication_channel_id
    before = view(state)
    if kind == "connect":
        msg = core.connect.req.Msg(addr_control_endpoint=a1, port_control_endpoint=port,
                                   addr_data_endpoint=a2, port_data_endpoint=port2)
        exp = [6, 0x10, 2, 5, 0, 26] + hpai(ip, port) + hpai(ip2, port2) + [4, 4, 2, 0]
    elif kind == "disconnect":
        msg = core.disconnect.req.Msg(addr_control_endpoint=a1, port_control_endpoint=port)
        exp = [6, 0x10, 2, 9, 0, 16, chan, 0] + hpai(ip, port)
    elif kind == "connectionstate":
        msg = core.connectionstate.req.Msg(addr_control_endpoint=a1, port_control_endpoint=port)
        exp = [6, 0x10, 2, 7, 0, 16, chan, 0] + hpai(ip, port)
    else:
        msg = core.search.req.Msg(addr=a1, port=port)
        exp = [6, 0x10, 2, 1, 0, 14] + hpai(ip, port)
    out = octets(knx_stack.encode_msg(state, msg))
    same_octets(out, exp, "encoded KNXnet/IP core request")
    check_eq(view(state), before, "a core request leaves the connection state alone", state)
"""


def ctx_core(tier):
    for k in ("connect", "disconnect", "connectionstate", "search"):
        yield "core_req", dict(kind=k)


PROPS = [
    Prop("C01", "Group writes are encoded to exactly the standard frame",
         WRITE, ctx_write,
         "every octet of the frame produced for a group write (request or indication), as a function of the "
         "free destination address, individual address, datapoint value, channel and counter, is the octet "
         "the cEMI/KNXnet-IP/USB-HID layouts prescribe, and the number of octets is exact"),

    Prop("C02", "Group reads are encoded to exactly the standard frame, or refused", READ, ctx_read,
         "every octet of the frame produced for a group read is the prescribed octet, for every medium and "
         "association layout; an object without group address yields no frame"),
    Prop("C03", "Property read and write requests are encoded bit exact", PROPERTY, ctx_prop,
         "every octet of the frame produced for a property read/write is the prescribed function of the free "
         "object index, property id, element count, start index, data octets and individual address"),
    Prop("C04", "Every length field of an encoded frame equals the actual length", LENGTHS, ctx_len,
         "report, body, total, connection header, structure and NPDU length octets equal the number of octets "
         "that follow, for every request the stack encodes and every data length"),
    Prop("C05", "KNXnet/IP core requests carry the given endpoints and channel", CORE, ctx_core,
         "every octet of search/connect/connectionstate/disconnect requests is the prescribed function of the "
         "free IPv4 addresses, ports and channel; the connection state is unchanged"),
]
