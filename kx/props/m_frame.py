import itertools
from kx.core import Prop

STATUS = '''
S = knx_stack


def feature(past, service, pad, extra, pins):
    """a report of the KNX USB interface about itself, possibly between group telegrams"""
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state("usb_hid", ia, raws, ((5, (0,)),), ((5, "DPT_Value_Temp"),))
    history(state, "usb_hid", ia, raws[0], 5, past)
    before = table_view(state)
    proto, sid = sym("protocol", 0, 255), sym("service", 0, 255)
    manu = [sym("manufacturer0", 0, 255), sym("manufacturer1", 0, 255)]
    fid, value = sym("feature", 0, 255), sym("value", 0, 255)
    if "protocol" in pins:
        proto = 0x0F
    else:
        assume(proto != 1)
        assume(proto != 0x0F)
    if "service" in pins:
        sid = service
    elif "protocol" in pins:
        assume(sid != 2)
        assume(sid != 4)
    if "manufacturer" in pins:
        manu = [0, 0]
    elif "service" in pins:
        assume((manu[0] << 8) + manu[1] != 0)
    if "status" in pins:
        fid = 3
    elif "emi" in pins:
        fid = 5
    elif "manufacturer" in pins:
        assume(fid != 3)
        assume(fid != 5)
    body = [proto, sid] + manu + [fid, value] + [sym("more%d" % i, 0, 255) for i in range(extra)]
    n = len(body) - 4
    values = [1, 0x13, n + 8, 0, 8, 0, n] + body + [sym("pad%d" % i, 0, 255) for i in range(pad)]
    msg = usbframe(values)
    res = S.decode_msg(state, msg)
    check(isinstance(res, list), "a list is returned")
    check_eq(octets(msg), values, "the frame itself is not changed", msg)
    check_eq(table_view(state), before, "a status report does not change the tables", state)
    if "status" in pins and value <= 1:
        check_eq(len(res), 1, "a bus connection status is reported", res)
        check_eq(res[0].status, "Connected" if value == 1 else "Disconnected", "the bus connection status", res[0])
    elif "emi" in pins and value >= 1 and value <= 3:
        check_eq(len(res), 1, "an active EMI type is reported", res)
        check_eq(res[0].type, ["emi1", "emi2", "cEMI"][value - 1], "the active EMI type", res[0])
    else:
        check_eq(len(res), 0, "nothing is reported for any other report", res)
    # and a telegram that follows is delivered as ever
    data = [sym("d0", 0, 255), sym("d1", 0, 255)]
    got = deliver("usb_hid", state, cemi_any(0x29, 0xBC, 0xE0, sym("src", 0, 65535), raws[0], [0x00, 0x80] + data), "the telegram that follows")
    check_eq(len(got), 1, "the telegram that follows is delivered", got)
    check_eq(got[0].dpt.value, (data[0] << 8) | data[1], "the telegram that follows", got[0])
'''

PIN = ((), ("protocol",), ("protocol", "service"), ("protocol", "service", "manufacturer"),
       ("protocol", "service", "manufacturer", "status"), ("protocol", "service", "manufacturer", "emi"))


def ctx_status(tier):
    pasts = [(), ("rgroup",), ("write", "rprop")] if tier == "quick" else \
        [()] + [p for n in (1, 2) for p in itertools.product(("rgroup", "rother", "rprop", "write", "pread", "refused"), repeat=n)]
    sizes = ((0, 0), (47, 0), (0, 1), (3, 2)) if tier == "quick" else tuple((p, e) for e in (0, 1, 2, 5) for p in (0, 1, 7, 47 - e))
    for past in pasts:
        for pad, extra in sizes if past == () else sizes[:2]:
            for pins in PIN:
                for service in (2, 4) if "service" in pins else (0,):
                    yield "feature", dict(past=past, service=service, pad=pad, extra=extra, pins=pins)


LDATA = '''
import knx_stack.definition.layer.link.ldata as LD
N = LD.NSDU


def kind(c2, tpci, dst):
    """the service data unit a link layer frame carries, as the standard defines it (None: not one of those)"""
    control, numbered, seq, low = tpci >> 7, (tpci >> 6) & 1, (tpci >> 2) & 15, tpci & 3
    if c2 >> 7:
        if control or numbered:
            return None
        if seq == 1:
            return N.T_Data_Tag_Group_PDU
        if seq:
            return None
        return N.T_Data_Group_PDU if dst else N.T_Data_Broadcast_PDU
    if control:
        if numbered:
            return [None, None, N.T_ACK_PDU, N.T_NACK_PDU][low]
        return [N.T_Connect_PDU, N.T_Disconnect_PDU, None, None][low]
    if numbered:
        return N.T_Data_Connected_PDU
    return None if seq else N.T_Data_Individual_PDU


def views(f, c1, c2, src, dst, tpci, apci, what):
    check_eq(f.source, src, what + ": source address", f)
    check_eq(f.destination, dst, what + ": destination address", f)
    check_eq(f.address_type, c2 >> 7, what + ": address type", f)
    check_eq(f.status, c1 & 1, what + ": confirm flag", f)
    check_eq(f.connected, tpci >= 128, what + ": control flag", f)
    check_eq(f.tpci, tpci, what + ": transport control octet", f)
    check_eq(f.apci, ((tpci & 3) << 8) | apci, what + ": ten bits of application control", f)
    check_eq(f.apci_value, apci, what + ": application control octet", f)
    check_eq(f.data, apci & 63, what + ": six bits of data", f)


def raw(n, seq):
    c1, c2 = sym("c1", 0, 255), sym("c2", 0, 255)
    src, dst = sym("src", 0, 65535), sym("dst", 0, 65535)
    tpci = (sym("control", 0, 1) << 7) | (sym("numbered", 0, 1) << 6) | (seq << 2) | sym("low", 0, 3)
    rest = [sym("n%d" % i, 0, 255) for i in range(n)]
    return c1, c2, src, dst, tpci, rest


def make(c1, c2, src, dst, tpci, rest, more):
    return LD.L_Data.make_from(frame([c1, c2, src >> 8, src & 255, dst >> 8, dst & 255, len(rest), tpci] + rest + more))


def reading(n, more):
    """every accessor of a link layer frame reads the bits the standard defines"""
    c1, c2, src, dst, tpci, rest = raw(n, sym("seq", 0, 15))
    if n == 0:
        tpci = tpci | 128
    f, body = make(c1, c2, src, dst, tpci, rest, [sym("m%d" % i, 0, 255) for i in range(more)])
    apci = rest[0] if n else 0
    views(f, c1, c2, src, dst, tpci, apci, "frame read")
    if n > 1:
        check_eq(octets(body)[:n - 1], rest[1:], "the payload is what follows the application control octet", body)
    elif n == 1 and not more:
        check_eq(octets(body), [apci & 63], "without payload it is the six bits of data", body)


def classified(group, seq, n):
    """the kind of service data unit, for every transport control octet"""
    c1, c2, src, dst, tpci, rest = raw(n, seq)
    c2 = (group << 7) | (c2 & 127)
    f, body = make(c1, c2, src, dst, tpci, rest, [])
    check_eq(f.nsdu, kind(c2, tpci, dst), "kind of service data unit", f)


def writing(field, then):
    """writing a field changes that field only"""
    c1, c2, src, dst, tpci, rest = raw(2, sym("seq", 0, 15))
    f, body = make(c1, c2, src, dst, tpci, rest, [])
    apci = rest[0]
    for k in (field,) + then:
        if k == "source":
            src = sym("new_" + k, 0, 65535)
            f.source = src
        elif k == "destination":
            dst = sym("new_" + k, 0, 65535)
            f.destination = dst
        elif k == "address_type":
            v = sym("new_" + k, 0, 1)
            f.address_type = LD.AddressType.group if v else LD.AddressType.individual
            c2 = (c2 & 127) | (v << 7)
        elif k == "connected":
            v = sym("new_" + k, 0, 1)
            f.connected = True if v else False
            tpci = (tpci & 127) | (v << 7)
        elif k == "apci":
            v = sym("new_" + k, 0, 1023)
            f.apci = v
            tpci, apci = (tpci & 0xFC) | (v >> 8), v & 255
        else:
            v = sym("new_" + k, 0, 63)
            f.data = v
            apci = (apci & 0xC0) | v
    views(f, c1, c2, src, dst, tpci, apci, "frame written")


KINDS = {"broadcast": (N.T_Data_Broadcast_PDU, 1, 0), "group": (N.T_Data_Group_PDU, 1, 0), "tag": (N.T_Data_Tag_Group_PDU, 1, 4),
         "individual": (N.T_Data_Individual_PDU, 0, 0), "connected": (N.T_Data_Connected_PDU, 0, 0x40), "connect": (N.T_Connect_PDU, 0, 0x80),
         "disconnect": (N.T_Disconnect_PDU, 0, 0x81), "ack": (N.T_ACK_PDU, 0, 0xC2), "nack": (N.T_NACK_PDU, 0, 0xC3)}


def fresh(name):
    """a new frame given a kind of service data unit has it, whatever the other fields are given"""
    pdu, group, tpci = KINDS[name]
    f = LD.L_Data()
    views(f, 0, 0, 0, 0, 0, 0, "new frame")
    check_eq(f._cntrl1.value, 0x96, "defaults of the first control field", f)
    check_eq(f._cntrl2.value, 0x60, "defaults of the second control field", f)
    dst = 0 if name == "broadcast" else sym("dst", 1, 65535)
    src = sym("src", 0, 65535)
    f.source, f.destination = src, dst
    f.address_type = group
    f.nsdu = pdu
    check_eq(f.nsdu, pdu, "the kind of service data unit set is the one read", f)
    check_eq(f.tpci, tpci, "the transport control octet of the kind set", f)
    check_eq(f.source, src, "setting the kind keeps the source", f)
    check_eq(f.destination, dst, "setting the kind keeps the destination", f)
    g = LD.L_Data()
    views(g, 0, 0, 0, 0, 0, 0, "another new frame")


def independent():
    """two frames share nothing"""
    c1, c2, src, dst, tpci, rest = raw(2, sym("seq", 0, 15))
    f, body = make(c1, c2, src, dst, tpci, rest, [])
    g, other = make(c1, c2, src, dst, tpci, rest, [])
    g.source, g.destination, g.apci, g.address_type = sym("a", 0, 65535), sym("b", 0, 65535), sym("c", 0, 1023), sym("d", 0, 1)
    g.connected = True
    views(f, c1, c2, src, dst, tpci, rest[0], "frame beside another")


def prop_header():
    """the four octets in front of property data"""
    P = knx_stack.layer.PropertyServiceHeader
    v = sym("v", 0, 2 ** 32 - 1)
    h = P()
    h.value = v
    want = {"object_index": v >> 24, "property_id": (v >> 16) & 255, "number_of_elements": (v >> 12) & 15, "start_index": v & 4095}
    for k in want:
        check_eq(getattr(h.bits, k), want[k], "property header field " + k, h)
    for k, shift, top in (("object_index", 24, 255), ("property_id", 16, 255), ("number_of_elements", 12, 15), ("start_index", 0, 4095)):
        g = P(value=v)
        new = sym("new", 0, top)
        setattr(g.bits, k, new)
        check_eq(g.value, v - (want[k] << shift) + (new << shift), "writing one property header field keeps the others", g)
'''

FIELDS = ("source", "destination", "address_type", "connected", "apci", "data")


def ctx_ldata(tier):
    top = 4 if tier == "quick" else 16
    for n in (*range(top), 17, 64, 200):
        for more in (0, 1, 3) if n else (0,):
            yield "reading", dict(n=n, more=more)
    for g in (0, 1):
        for seq in range(16):
            if g == 0 and seq:
                continue
            for n in (2,) if tier == "quick" else (1, 2, 3):
                yield "classified", dict(group=g, seq=seq, n=n)
    for f in FIELDS:
        for r in range(2 if tier == "quick" else 3):
            for then in itertools.permutations([k for k in FIELDS if k != f], r):
                yield "writing", dict(field=f, then=then)
    for k in ("broadcast", "group", "tag", "individual", "connected", "connect", "disconnect", "ack", "nack"):
        yield "fresh", dict(name=k)
    yield "independent", {}
    yield "prop_header", {}


READERS = '''
def num(x):
    return x.value if hasattr(x, "value") else x


def num_address(x):
    return x.free_style if isinstance(x, knx_stack.Address) else num(x)


def reader(medium, what, more):
    """the record readers of a frame return its fields and exactly what follows"""
    sizes = {"HPAI": 8, "CRI": 4, "CRD": 4, "header": 4}
    n = sizes[what]
    vals = [sym("o%d" % i, 0, 255) for i in range(n + more)]
    m = medframe(medium, vals)
    got = getattr(m, what)()
    check_eq(octets(got[-1]), vals[n:], what + ": what follows the record", got[-1])
    check(type(got[-1]) is type(m), what + ": what follows is a message of the same kind", got[-1])
    check_eq(octets(m), vals, what + ": the message is not changed", m)
    if what == "HPAI":
        check_eq(got[0], "%d.%d.%d.%d" % (vals[2], vals[3], vals[4], vals[5]), "HPAI: address", got[0])
        check_eq(num(got[1]), (vals[6] << 8) | vals[7], "HPAI: port", got[1])
    elif what == "CRI":
        check_eq(num(got[0]), vals[1], "CRI: connection type", got[0])
        check_eq(num(got[1]), vals[2], "CRI: KNX layer", got[1])
    elif what == "CRD":
        check_eq(num(got[0]), vals[1], "CRD: connection type", got[0])
        check_eq(num_address(got[1]), (vals[2] << 8) | vals[3], "CRD: individual address", got[1])
    else:
        check_eq(num(got[0]), vals[1], "connection header: channel", got[0])
        check_eq(num(got[1]), vals[2], "connection header: sequence counter", got[1])
        if medium == "knxnet_ip":
            check_eq(num(got[2]), vals[3], "connection header: status", got[2])


def short(medium, what, n):
    """a record that is cut off is refused"""
    vals = [sym("o%d" % i, 0, 255) for i in range(n)]
    m = medframe(medium, vals)
    try:
        getattr(m, what)()
        refused = False
    except Exception:
        refused = True
    check(refused, what + ": a record that is cut off is refused", m)
    check_eq(octets(m), vals, what + ": the message is not changed", m)


def chained(medium, order):
    """reading record after record takes every octet once"""
    sizes = {"HPAI": 8, "CRI": 4, "CRD": 4, "header": 4}
    total = 0
    for k in order:
        total += sizes[k]
    vals = [sym("o%d" % i, 0, 255) for i in range(total + 1)]
    m = medframe(medium, vals)
    at = 0
    for k in order:
        got = getattr(m, k)()
        m = got[-1]
        at += sizes[k]
        check_eq(octets(m), vals[at:], "what follows record after record", m)
'''


def ctx_readers(tier):
    names = ("HPAI", "CRI", "CRD", "header")
    for medium in ("knxnet_ip", "usb_hid"):
        for what in names:
            for more in (0, 1, 2) if tier == "quick" else range(0, 24):
                yield "reader", dict(medium=medium, what=what, more=more)
            for n in range(8 if what == "HPAI" else 4):
                yield "short", dict(medium=medium, what=what, n=n)
        for r in (2,) if tier == "quick" else (2, 3):
            for order in itertools.product(names, repeat=r):
                yield "chained", dict(medium=medium, order=order)


PROPS = [
    Prop("C39", "Status reports of the USB interface are reported as they are, and only those", STATUS, ctx_status,
         "for every service, manufacturer, feature and value: a bus connection status or active EMI type is reported with its value, any other "
         "report yields nothing; tables and the telegrams that follow are unaffected",
         anchors=["knx_stack.decode.usb_hid.report_body.usb_protocol_header.bus_access_server_feature"]),
    Prop("C40", "Link layer frames and property headers give access to exactly the prescribed bits", LDATA, ctx_ldata,
         "for every value of every octet of a link layer frame: accessors read the prescribed bits, writers change only these, the kind of "
         "service data unit is the one the standard defines",
         anchors=["knx_stack.definition.layer.link.ldata"]),
    Prop("C41", "The records of a frame are read whole, in order and without loss", READERS, ctx_readers,
         "for all octets: HPAI, CRI, CRD and connection header give their fields and the rest; a record that is cut off is refused",
         anchors=["knx_stack.definition.knxnet_ip.msg", "knx_stack.definition.usb_hid.msg"]),
]
