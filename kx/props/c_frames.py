from kx.core import Prop
from kx.props.a_encode import ALL, LAYOUTS
from kx.props.b_decode import SIZES

STRICT = '''
def usb_header(ndata, bad):
    # nothing about the header is assumed except that the frame is long enough
    raws = groups(1)
    state = make_state("usb_hid", sym("ia", 0, 65535), raws, ((5, (0,)),), ((5, "DPT_Switch" if not ndata else "DPT_Value_Temp"),))
    apdu = [0x00, 0x80 | sym("inline", 0, 63)] if not ndata else [0x00, 0x80, sym("d0", 0, 255), sym("d1", 0, 255)]
    cemi = cemi_any(0x29, sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535), raws[0], apdu)
    code = sym("code", 0, 255)
    cemi[0] = code
    n = len(cemi)
    report, info = sym("report", 0, 255), sym("packet_info", 0, 255)
    version, hlen = sym("version", 0, 255), sym("header_length", 0, 255)
    proto, emi = sym("protocol", 0, 255), sym("emi", 0, 255)
    manu = [sym("manufacturer%d" % i, 0, 255) for i in range(2)]
    assume(proto != 0x0F)
    # exactly one field is not what the protocol requires (-1: none)
    for f, cond in enumerate((report == 1, info & 15 == 3, version == 0, hlen == 8, proto == 1, emi == 3,
                              manu[0] == 0, manu[1] == 0)):
        if f == bad:
            assume(not cond)
        elif bad < 0:
            assume(cond)
    if bad == 8:
        assume(code != 0x29)
        assume(code != 0x2E)
    elif bad < 0:
        assume(code == 0x29 or code == 0x2E)
    res = knx_stack.decode_msg(state, usbframe(
        [report, info, n + 8, version, hlen, 0, n, proto, emi] + manu + cemi))
    check(isinstance(res, list), "a list is returned")
    if bad >= 0:
        check_eq(len(res), 0, "a frame with a wrong header field is ignored", res)
    else:
        check_eq(len(res), 1, "a well formed frame is accepted", res)


def usb_feature(pad, case):
    state = knx_stack.State(knx_stack.Medium.usb_hid, None, None)
    service, feature, value = sym("service", 0, 255), sym("feature", 0, 255), sym("value", 0, 255)
    proto = sym("protocol", 0, 255)
    manu = [sym("manufacturer%d" % i, 0, 255) for i in range(2)]
    if case == "protocol":
        assume(proto != 1)
        assume(proto != 0x0F)
    elif case == "service":
        proto = 0x0F
        assume(service != 2)
        assume(service != 4)
    elif case == "manufacturer":
        proto = 0x0F
        assume((manu[0] << 8) | manu[1] != 0)
    else:
        proto, manu = 0x0F, [0, 0]
        service = 2 if case == "response" else 4
    if case == "feature":
        assume(feature != 3)
        assume(feature != 5)
    res = knx_stack.decode_msg(state, usbframe(
        [1, 0x13, 10, 0, 8, 0, 2, proto, service] + manu + [feature, value] + [sym("pad%d" % i, 0, 255) for i in range(pad)]))
    check(isinstance(res, list), "a list is returned")
    if case != "response" and case != "info":
        check_eq(len(res), 0, "no device feature is reported for anything else", res)
    elif feature == 3 and value <= 1:
        check_eq(len(res), 1, "bus connection status reported", res)
        if value == 0:
            check_eq(res[0].status, "Disconnected", "bus connection status", res[0])
        else:
            check_eq(res[0].status, "Connected", "bus connection status", res[0])
    elif feature == 5 and value >= 1 and value <= 3:
        check_eq(len(res), 1, "active EMI type reported", res)
        if value == 1:
            check_eq(res[0].type, "emi1", "active EMI type", res[0])
        elif value == 2:
            check_eq(res[0].type, "emi2", "active EMI type", res[0])
        else:
            check_eq(res[0].type, "cEMI", "active EMI type", res[0])
    else:
        check_eq(len(res), 0, "no device feature is reported for anything else", res)


def service_kind(service):
    k = knx_stack.knxnet_ip
    if service == 0x0202:
        return k.core.search.res.Msg
    if service == 0x0206:
        return k.core.connect.res.Msg
    if service == 0x0208:
        return k.core.connectionstate.res.Msg
    if service == 0x020A:
        return k.core.disconnect.res.Msg
    if service == 0x0420:
        return k.tunneling.req.Msg
    return k.tunneling.ack.Msg


def ip_header(bad):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    hlen, version, service = sym("header_length", 0, 255), sym("version", 0, 255), sym("service", 0, 65535)
    body = [0, 60] + [0, 0] + [sym("b%d" % i, 0, 255) for i in range(2, 60)]
    if bad == "length":
        assume(hlen != 6)
    elif bad == "version":
        assume(version != 0x10)
    else:
        for k in (0x0202, 0x0206, 0x0208, 0x020A, 0x0420, 0x0421):
            assume(service != k)
    before = view(state)
    res = knx_stack.decode_msg(state, ipframe([hlen, version, service >> 8, service & 255] + body))
    check(isinstance(res, list), "a list is returned")
    check_eq(len(res), 0, "only known services of KNXnet/IP version 1.0 yield messages", res)
    check_eq(view(state), before, "ignored frames leave the state alone", state)


def ip_service(service, size):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    first = [4, 0, 0, 0] if service >= 0x0420 else [0, 0]
    body = [0, size + 6] + first + [sym("b%d" % i, 0, 255) for i in range(len(first), size)]
    if service == 0x0420:
        body[4] = state.sequence_counter_remote
        body[6] = sym("code", 0, 255)
        body[7] = 0
        body[14] = size - 16
        if size < 20:
            # property frames have four octets of header
            assume(body[9] >= 128 or body[16] != 0xD5 and body[16] != 0xD6 and body[16] != 0xD7)
    if service == 0x0202:
        body[2] = 8
    res = knx_stack.decode_msg(state, ipframe([6, 0x10, service >> 8, service & 255] + body))
    check(isinstance(res, list), "a list is returned")
    check(len(res) >= 1, "a known service is reported", res)
    check(isinstance(res[0], service_kind(service)), "kind of message of the service", res[0])
    if service != 0x0420:
        check_eq(len(res), 1, "one message per frame", res)
'''


def ctx_strict(tier):
    for nd in (0, 2):
        for bad in range(-1, 9):
            yield "usb_header", dict(ndata=nd, bad=bad)
    for pad in (0, 1, 3) if tier == "quick" else range(0, 60, 4):
        for case in ("protocol", "service", "manufacturer", "feature", "response", "info"):
            yield "usb_feature", dict(pad=pad, case=case)
    for bad in ("length", "version", "service"):
        yield "ip_header", dict(bad=bad)
    for svc, sizes in ((0x0202, (14, 20)), (0x0206, (14, 16)), (0x0208, (2,)), (0x020A, (2,)), (0x0421, (4,)),
                       (0x0420, (17, 18, 21, 25) if tier == "quick" else range(17, 40))):
        for size in sizes:
            yield "ip_service", dict(service=svc, size=size)


TOTAL = '''
def total_cemi(medium, add, rest, name, case):
    """a complete frame: data TPDUs have an APCI octet, property services their header of four octets"""
    raws = groups(2)
    state = make_state(medium, sym("ia", 0, 65535), raws, ((5, (0, 1)), (6, (1,))), ((5, name), (6, "DPT_Switch")))
    code = sym("code", 0, 255)
    c1, c2 = sym("ctrl1", 0, 255), sym("ctrl2", 0, 255)
    src, dst = sym("src", 0, 65535), sym("dst", 0, 65535)
    tpci, apci = sym("tpci", 0, 127), sym("apci", 0, 255)
    if case == "control":
        tpci = 0x80 | tpci
    elif case == "group":
        c2 = 0x80 | sym("ctrl2_low", 0, 127)
    elif case == "individual":
        c2 = sym("ctrl2_low", 0, 127)
    elif case == "below":
        c2 = sym("ctrl2_low", 0, 127)
        apci = sym("apci", 0, 0xD4)
    elif case == "above":
        c2 = sym("ctrl2_low", 0, 127)
        apci = sym("apci", 0xD8, 0xFF)
    else:
        c2 = sym("ctrl2_low", 0, 127)
        tpci = (sym("tpci_high", 0, 31) << 2) | case
    npdu = [tpci]
    if rest >= 0:
        npdu = [tpci, apci] + [sym("data%d" % i, 0, 255) for i in range(rest)]
    cemi = cemi_any(code, c1, c2, src, dst, npdu)
    cemi = [cemi[0], add] + [sym("add%d" % i, 0, 255) for i in range(add)] + cemi[2:]
    try:
        res = knx_stack.decode_msg(state, medframe(medium, incoming(medium, state, cemi)))
    except Exception as e:
        fail("a complete frame is decoded without an exception", e)
        res = []
    check(isinstance(res, list), "decoding returns a list of messages")


def total_ip(service, size, statuses, at):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    body = [0, size + 6] + [sym("b%d" % i, 0, 255) for i in range(size)]
    if at:
        st = sym("status", 0, 255)
        ok = False
        for s in statuses:
            if st == s:
                ok = True
        assume(ok)
        body[at] = st
    try:
        res = knx_stack.decode_msg(state, ipframe([6, 0x10, service >> 8, service & 255] + body))
    except Exception as e:
        fail("a complete frame is decoded without an exception", e)
        res = []
    check(isinstance(res, list), "decoding returns a list of messages")


def total_unknown(medium, size, case):
    state = make_state(medium, sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    o = [sym("o%d" % i, 0, 255) for i in range(size)]
    if medium == "usb_hid":
        if case == 0:
            assume(o[0] != 1)
        else:
            o[0] = 1
            assume(o[1] & 15 != 3)
    elif case == 0:
        assume(o[0] != 6)
    elif case == 1:
        o[0] = 6
        assume(o[1] != 0x10)
    else:
        o[0], o[1] = 6, 0x10
        o[2] = sym("family", 0, 1) if case == 2 else 3 if case == 3 else sym("family", 5, 255)
    try:
        res = knx_stack.decode_msg(state, medframe(medium, o))
    except Exception as e:
        fail("a frame of another kind is ignored without an exception", e)
        res = []
    check(isinstance(res, list), "decoding returns a list of messages")
    check_eq(len(res), 0, "a frame of another kind yields nothing", res)


def total_encode(kind, name):
    # encoding any request for a configured object never fails
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1, 0), ((5, (0,)),), ((5, name),))
    dpt = getattr(D, name)()
    dpt.value = value_of(name, "value")
    try:
        if kind == "write":
            out = knx_stack.encode_msg(state, A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
        elif kind == "ind":
            out = knx_stack.encode_msg(state, A.a_group_value_write.ind.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
        else:
            out = knx_stack.encode_msg(state, A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(5)))
    except Exception as e:
        fail("a request for a configured object is encoded without an exception", e)
        out = frame([])
    check(isinstance(out, knx_stack.Msg), "encoding returns a frame")
    for o in out:
        check(isinstance(o, knx_stack.Octect), "a frame is made of octets", o)
'''


def ctx_total(tier):
    q = tier == "quick"
    for m in ("usb_hid", "knxnet_ip"):
        for add in (0, 3) if q else range(0, 8):
            for rest in (-1, 0, 1, 2, 4, 5, 12, 17, 60) if q else (*range(-1, 24), 60, 120, 200):
                cases = ["control"]
                if rest >= 0:
                    cases += ["group", "individual"] if rest >= 4 else ["group", "below", "above", 0, 1, 2]
                for case in cases:
                    yield "total_cemi", dict(medium=m, add=add, rest=rest, name="DPT_Value_Temp", case=case)
        for size in (4, 20, 100) if q else (4, 8, 12, 20, 40, 64, 100, 200):
            for case in (0, 1) if m == "usb_hid" else (0, 1, 2, 3, 4):
                yield "total_unknown", dict(medium=m, size=size, case=case)
        if not q:
            for name in ALL:
                for case in ("control", "group", "individual"):
                    yield "total_cemi", dict(medium=m, add=0, rest=4, name=name, case=case)
    yield "total_ip", dict(service=0x0202, size=14, statuses=(), at=0)
    yield "total_ip", dict(service=0x0206, size=14, statuses=(0, 0x22, 0x23, 0x24, 0x29), at=3)
    yield "total_ip", dict(service=0x0206, size=2, statuses=(0x22, 0x23, 0x24, 0x29), at=3)
    yield "total_ip", dict(service=0x0208, size=2, statuses=(0, 0x21, 0x26, 0x27), at=3)
    yield "total_ip", dict(service=0x020A, size=2, statuses=tuple(range(256)), at=3)
    yield "total_ip", dict(service=0x0421, size=4, statuses=(0, 1, 2, 4, 0x21), at=5)
    for name in ALL:
        for kind in ("write", "ind", "read"):
            yield "total_encode", dict(kind=kind, name=name)


TRUNC = '''
def cut(medium, what, name, ndata, k):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)),), ((5, name),))
    code = 0x29 if sym("confirm", 0, 1) == 0 else 0x2E
    if what == "group":
        assume(ia != raws[0])
        service = sym("service", 0, 2)
        if ndata:
            apdu = [0x00, service << 6] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
        else:
            apdu = [0x00, (service << 6) | sym("inline", 0, 63)]
        cemi = cemi_any(code, sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535), raws[0], apdu)
    else:
        service = sym("service", 0xD5, 0xD7)
        apdu = [0x03, service] + [sym("h%d" % i, 0, 255) for i in range(4)] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
        cemi = cemi_any(code, sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), ia, ia, apdu)
    full = incoming(medium, state, cemi)
    rest = full[:len(full) - k]
    try:
        res = knx_stack.decode_msg(state, medframe(medium, rest))
    except Exception as e:
        res = None
    check(res is None or len([m for m in res if not isinstance(m, knx_stack.knxnet_ip.tunneling.req.Msg)]) == 0,
          "a frame cut short delivers no service message", res)


def cut_ip(service, size, k, status):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    body = [0, size + 6] + [sym("b%d" % i, 0, 255) for i in range(size)]
    if service == 0x0206 or service == 0x0208 or service == 0x020A:
        body[3] = status
    if service == 0x0421:
        body[5] = status
    full = [6, 0x10, service >> 8, service & 255] + body
    before = view(state)
    try:
        res = knx_stack.decode_msg(state, ipframe(full[:len(full) - k]))
    except Exception as e:
        res = None
    check(res is None or len(res) == 0, "a response cut short is not reported", res)
    check_eq(view(state), before, "a response cut short leaves the connection state alone", state)


def cut_feature(k):
    state = knx_stack.State(knx_stack.Medium.usb_hid, None, None)
    service, feature, value = sym("service", 0, 255), sym("feature", 0, 255), sym("value", 0, 255)
    full = [1, 0x13, 10, 0, 8, 0, 2, 0x0F, service, 0, 0, feature, value]
    try:
        res = knx_stack.decode_msg(state, usbframe(full[:len(full) - k]))
    except Exception as e:
        res = None
    check(res is None or len(res) == 0, "a device feature frame cut short is not reported", res)
'''


def ctx_trunc(tier):
    q = tier == "quick"
    for m, h in (("usb_hid", 11), ("knxnet_ip", 10)):
        for name in ("DPT_Switch", "DPT_Value_Temp", "DPT_Value_Power", "DPT_Brightness") if q else ALL:
            n = h + 11 + SIZES[name]
            for k in range(1, n + 1):
                yield "cut", dict(medium=m, what="group", name=name, ndata=SIZES[name], k=k)
        for nd in (0, 2, 14) if q else (*range(0, 16), 40):
            n = h + 15 + nd
            for k in range(1, n + 1):
                yield "cut", dict(medium=m, what="property", name="DPT_Switch", ndata=nd, k=k)
    for svc, size, status in ((0x0202, 14, 0), (0x0206, 14, 0), (0x0208, 2, 0), (0x0208, 2, 0x21),
                              (0x020A, 2, 0), (0x0421, 4, 0)):
        for k in range(3 if svc == 0x0202 else 1, 6 + size + 1):
            yield "cut_ip", dict(service=svc, size=size, k=k, status=status)
    for k in range(1, 14):
        yield "cut_feature", dict(k=k)


ROUND = '''
def round_trip(medium, kind, name, text, n, rows, rows2):
    raws = groups(n)
    dpts = [(a, name) for a, idx in rows]
    sender = make_state(medium, sym("ia", 0, 65535), raws, rows, dpts)
    receiver = make_state(medium, sym("ia2", 0, 65535), raws, rows2, [(a, name) for a, idx in rows2])
    if medium == "knxnet_ip":
        receiver.sequence_counter_remote = sender.sequence_counter_local
    dpt = getattr(D, name)()
    value = value_of(name, "value")
    dpt.value = value
    for a, idx in rows:
        if kind == "read":
            out = knx_stack.encode_msg(sender, A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(a)))
        elif kind == "req":
            out = knx_stack.encode_msg(sender, A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(a), dpt=dpt))
        else:
            out = knx_stack.encode_msg(sender, A.a_group_value_write.ind.Msg(asap=knx_stack.ASAP(a), dpt=dpt))
        at = 11 if medium == "usb_hid" else 10
        if kind != "ind":
            out[at] = knx_stack.Octect(value=0x29)      # what the other stations receive
        if text:
            out = knx_stack.Msg.make_from_str(str(out)) if medium == "usb_hid" else \\
                knx_stack.knxnet_ip.Msg.make_from_str(str(out))
        else:
            out = medframe(medium, octets(out))
        res = knx_stack.decode_msg(receiver, out)
        if medium == "knxnet_ip":
            res = res[1:]
        exp = [b for b, idx2 in rows2 if idx[0] in idx2]
        check_eq(len(res), len(exp), "everything sent is received once per listening object", res)
        for m in res:
            check(m.asap.value in exp, "only listening objects receive", m)
            if kind == "read":
                check(isinstance(m, A.a_group_value_read.ind.Msg), "a read is received as a read", m)
            else:
                check(isinstance(m, A.a_group_value_write.ind.Msg), "a write is received as a write", m)
                check(type(m.dpt) is type(dpt), "datapoint type survives the round trip", m)
                check_eq(m.dpt.value, value, "value survives the round trip", m.dpt)


def property_round_trip(medium, service, ndata):
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    if medium == "knxnet_ip":
        state.sequence_counter_remote = state.sequence_counter_local
    oi, pid = sym("object_index", 0, 255), sym("property_id", 0, 255)
    ne, si = sym("number_of_elements", 0, 15), sym("start_index", 0, 4095)
    data = [sym("data%d" % i, 0, 255) for i in range(ndata)]
    if service == "read":
        msg = A.a_property_value_read.req.Msg(asap=knx_stack.ASAP(0), object_index=oi, property_id=pid,
                                              number_of_elements=ne, start_index=si)
    else:
        msg = A.a_property_value_write.req.Msg(asap=knx_stack.ASAP(0), object_index=oi, property_id=pid,
                                               number_of_elements=ne, start_index=si, data=str(frame(data)))
    out = knx_stack.encode_msg(state, msg)
    out[11 if medium == "usb_hid" else 10] = knx_stack.Octect(value=0x2E)
    res = knx_stack.decode_msg(state, medframe(medium, octets(out)))
    if medium == "knxnet_ip":
        res = res[1:]
    check_eq(len(res), 1, "the confirmation of a property request is reported", res)
    m = res[0]
    if service == "read":
        check(isinstance(m, A.a_property_value_read.con.Msg), "kind of confirmation", m)
    else:
        check(isinstance(m, A.a_property_value_write.con.Msg), "kind of confirmation", m)
        same_octets(octets(m.data), data, "property data survives the round trip")
    check_eq(m.object_index, oi, "object index survives the round trip", m)
    check_eq(m.property_id, pid, "property id survives the round trip", m)
    check_eq(m.number_of_elements, ne, "number of elements survives the round trip", m)
    check_eq(m.start_index, si, "start index survives the round trip", m)
'''


def ctx_round(tier):
    q = tier == "quick"
    for m in ("usb_hid", "knxnet_ip"):
        for name in ALL:
            for kind in ("read", "req", "ind"):
                for text in (1,) if q else (0, 1):
                    for rows2 in (((7, (0, 1)), (8, (1,))),) if q else (
                            ((7, (0, 1)), (8, (1,))), ((5, (1, 0)),), ((1, ()), (2, (0,)))):
                        yield "round_trip", dict(medium=m, kind=kind, name=name, text=text, n=2,
                                                 rows=((5, (0,)), (6, (1, 0))), rows2=rows2)
        for svc in ("read", "write"):
            for nd in (0, 1, 4, 10, 11, 16, 60, 200) if q else (*range(0, 24), 60, 120, 200, 220):
                yield "property_round_trip", dict(medium=m, service=svc, ndata=nd)


PROPS = [
    Prop("C11", "Only well formed frames of supported services yield messages", STRICT, ctx_strict,
         "with every header octet free, a non-empty result implies that each header field has the value the "
         "protocol requires, and each supported service yields its own kind of message"),
    Prop("C12", "Decoding any complete frame returns a list and never fails", TOTAL, ctx_total,
         "no path of the decoder (or of the encoder for a configured object) raises, for any content of a "
         "complete frame, and the result is always a list"),
    Prop("C13", "A frame cut short never yields a message nor changes the connection", TRUNC, ctx_trunc,
         "for every prefix of every kind of frame, with free content, no service message is returned and the "
         "connection state is unchanged"),
    Prop("C14", "What is encoded is decoded back unchanged by every listening stack", ROUND, ctx_round,
         "encode composed with decode is the identity on kind, object, datapoint type and value for free values, "
         "addresses and counters, also through the textual form"),
]
