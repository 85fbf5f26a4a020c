import itertools
from kx.core import Prop

TEXT = '''
A = knx_stack.layer.application
N = knx_stack.knxnet_ip
LK = knx_stack.layer.link


def hexa(v, n):
    return ("%%0%dX" % n) % v


def group_text(v):
    return "(0x%s %d/%d %d/%d/%d)" % (hexa(v, 4), v >> 11, v & 2047, v >> 11, (v >> 8) & 7, v & 255)


def same(got, want, label):
    check_eq(got, want, label, got)


def asap_text(number, name):
    return "%d (%s)" % (number, name) if name else "%d" % number


def group_message(what, number, name, typ):
    """a group message names its kind, its status, its datapoint and its object"""
    dpt = getattr(D, typ)()
    dpt.value = value_of(typ, "value")
    asap = knx_stack.ASAP(number, name)
    kind, role = what.split(".")
    mod = getattr(getattr(A, "a_group_value_" + kind), role)
    title = {"read": "GroupValueRead", "write": "GroupValueWrite", "response": "GroupValueResponse"}[kind] + {"req": "Req", "ind": "Ind", "con": "Con"}[role]
    if what == "read.req":
        m = mod.Msg(asap=asap)
        want = "%s (for asap %s)" % (title, asap_text(number, name))
    elif role == "con":
        flag = LK.ConfirmFlag.ko if sym("failed", 0, 1) else LK.ConfirmFlag.ok
        m = mod.Msg(asap=asap, dpt=dpt, status=flag)
        want = "%s status %d (%s for asap %s)" % (title, 1 if flag == LK.ConfirmFlag.ko else 0, repr(dpt), asap_text(number, name))
    else:
        m = mod.Msg(asap=asap, dpt=dpt)
        want = "%s (%s for asap %s)" % (title, repr(dpt), asap_text(number, name))
    same(repr(m), want, "printed group message")
    same(str(m), want, "group message as text")


def property_message(what, number, name):
    asap = knx_stack.ASAP(number, name)
    kind, role = what.split(".")
    f = {"object_index": sym("oi", 0, 255), "property_id": sym("pid", 0, 255), "number_of_elements": sym("ne", 0, 15),
         "start_index": sym("si", 0, 4095)}
    title = {"read": "PropertyValueRead", "write": "PropertyValueWrite", "response": "PropertyValueResponse"}[kind] + \\
        {"req": "Req", "ind": "Ind", "con": "Con"}[role]
    mod = getattr(getattr(A, "a_property_value_" + kind), role)
    args = dict(f)
    head = title
    if kind != "read":
        d = [sym("d0", 0, 255), sym("d1", 0, 255)]
        args["data"] = frame(d)
        head = "%s %s" % (head, hexa(d[0], 2) + hexa(d[1], 2))
    if role == "con":
        args["status"] = LK.ConfirmFlag.ko if sym("failed", 0, 1) else LK.ConfirmFlag.ok
        head = "%s status %d" % (head, 1 if args["status"] == LK.ConfirmFlag.ko else 0)
    want = "%s (object index %d, property id %d, number of elements %d, start index %d for asap %s)" % (
        head, f["object_index"], f["property_id"], f["number_of_elements"], f["start_index"], asap_text(number, name))
    m = mod.Msg(asap=asap, **args)
    same(repr(m), want, "printed property message")
    same(str(m), want, "property message as text")


def core_message(what):
    p, q, ia = sym("p", 0, 65535), sym("q", 0, 65535), sym("ia", 0, 65535)
    seq, chan = sym("seq", 0, 255), sym("chan", 0, 255)
    if what == "search.req":
        m, want = N.core.search.req.Msg(addr="10.0.0.1", port=p), "SearchReq (10.0.0.1:%d)" % p
    elif what == "connect.req":
        m = N.core.connect.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=p, addr_data_endpoint="10.0.0.2", port_data_endpoint=q)
        want = "ConnectReq (control endpoint = 10.0.0.1:%d data endpoint 10.0.0.2:%d)" % (p, q)
    elif what == "connectionstate.req":
        m = N.core.connectionstate.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=p)
        want = "ConnectionstateReq (control endpoint = 10.0.0.1:%d)" % p
    elif what == "disconnect.req":
        m = N.core.disconnect.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=p)
        want = "DisconnectReq (control endpoint = 10.0.0.1:%d)" % p
    elif what == "search.res":
        m = N.core.search.res.Msg(ip="10.0.0.3", port=p, individual_address=knx_stack.Address(ia))
        want = "SearchRes(ip=10.0.0.3, port=%d, individual address=0x%s)" % (p, hexa(ia, 4))
    elif what == "connect.res":
        s = N.core.connect.Status.E_NO_ERROR if hasattr(N.core.connect, "Status") else N.core.connect.res.Status.E_NO_ERROR
        m = N.core.connect.res.Msg(ip="10.0.0.3", port=p, individual_address=knx_stack.Address(ia), status=s)
        want = "ConnectRes(ip=10.0.0.3, port=%d, individual address=0x%s, status=%s)" % (p, hexa(ia, 4), s)
    elif what == "disconnect.res":
        m = N.core.disconnect.res.Msg(communication_channel_id=chan, status=Err.E_CONNECTION_ID)
        want = "DisconnectRes(communication_channel_id=%d, status=%s)" % (chan, Err.E_CONNECTION_ID)
    elif what == "ack":
        m = N.tunneling.ack.Msg(sequence_counter=seq, status=Err.E_SEQUENCE_NUMBER)
        want = "TunnelingAck(sequence counter=%d, status=%s)" % (seq, Err.E_SEQUENCE_NUMBER)
    else:
        m = N.tunneling.req.Msg(sequence_counter=seq, status=Err.E_NO_ERROR)
        want = "TunnelingReq(sequence counter=%d, status=%r)" % (seq, Err.E_NO_ERROR)
    same(repr(m), want, "printed connection message")
    same(str(m), want, "connection message as text")


def tables(n, rows, dpts, ops):
    """printed tables list exactly what they hold now"""
    raws = groups(n, 0)
    ia = sym("ia", 0, 65535)
    for r in raws:
        assume(r != ia)
    state = make_state("usb_hid", ia, raws, rows, dpts)
    assoc, objs = state.association_table, state.datapointtypes
    held = {0: []}
    names = {0: "individual address"}
    for a, idx in rows:
        held[a] = [i for i in idx]
        names[a] = "object %d" % a
    types = [(a, t) for a, t in dpts]
    for op in ops:
        if op[0] == "assoc":
            assoc.associate(knx_stack.ASAP(op[1], "late %d" % op[1]), [gaddr(raws[i]) for i in op[2:]])
            if op[1] not in held:
                held[op[1]] = []
                names[op[1]] = "late %d" % op[1]
            held[op[1]] = held[op[1]] + [i for i in op[2:] if i not in held[op[1]]]
        elif op[0] == "dis":
            assoc.disassociate(knx_stack.ASAP(op[1]), [gaddr(raws[op[2]])])
            held[op[1]] = [i for i in held[op[1]] if i != op[2]]
        elif op[0] == "type":
            objs.associate(knx_stack.ASAP(op[1]), getattr(D, op[2]))
            types = types + [(op[1], op[2])]
        else:
            objs.disassociate(knx_stack.ASAP(op[1]))
            types = [x for x in types if x[0] != op[1]]
    want = "AssociationTable: asap -> addresses\\n"
    for a in held:
        line = ", ".join([group_text(raws[i]) for i in held[a]]) if a else "0x" + hexa(ia, 4)
        want += "    %s -> [%s]\\n" % (asap_text(a, names[a]), line)
    at = "AddressTable: individual address: 0x%s, max_size=255\\n\\n    tsap -> individual address\\n    0 -> 0x%s\\n" % (hexa(ia, 4), hexa(ia, 4))
    at += "    tsap -> group address (hex_free_style two_level_style three_level_style)\\n"
    used = [i for i in range(n) if any([i in held[a] for a in held])]
    for tsap, i in enumerate(used):
        at += "    %d -> %s\\n" % (tsap + 1, group_text(raws[i]))
    same(repr(assoc), want + at, "printed association table")
    got = repr(objs)
    lines = "GroupObjectTable: ASAP -> datapointtype\\n"
    for a, t in types:
        lines += "    %d -> %s\\n" % (a, t)
    same(got, lines, "printed group object table")


def address_table(n):
    raws = groups(n, 0)
    ia, size = sym("ia", 0, 65535), sym("size", n, 65535)
    t = knx_stack.AddressTable(knx_stack.Address(ia), [gaddr(r) for r in raws], size)
    want = "AddressTable: individual address: 0x%s, max_size=%d\\n\\n    tsap -> individual address\\n    0 -> 0x%s\\n" % (hexa(ia, 4), size, hexa(ia, 4))
    want += "    tsap -> group address (hex_free_style two_level_style three_level_style)\\n"
    for i, r in enumerate(raws):
        want += "    %d -> %s\\n" % (i + 1, group_text(r))
    same(repr(t), want, "printed address table")


def objects():
    number = sym("number", 0, 65535)
    same(repr(knx_stack.ASAP(number)), "%d" % number, "an object without name prints its number")
    same(repr(knx_stack.ASAP(number, "hall light")), "%d (hall light)" % number, "an object with a name prints both")
    same(repr(knx_stack.Octect(value=number >> 8)), "0x" + hexa(number >> 8, 2), "a printed octet")
    same(repr(knx_stack.Short(value=number)), "0x" + hexa(number, 4), "a printed short")
    same(repr(knx_stack.Long(value=number * 65536 + 7)), "0x" + hexa(number, 4) + "0007", "a printed long")
    same(repr(knx_stack.Address(number)), "0x" + hexa(number, 4), "a printed address")
    same(repr(gaddr(number)), group_text(number), "a printed group address")
    f = knx_stack.layer.L_Data()
    f.source, f.destination, f.address_type = number, sym("dst", 0, 65535), 1
    same(repr(f), "source: %d (0x%s), destination: %d (0x%s), address_type: %s" % (
        number, hexa(number, 4), sym("dst", 0, 65535), hexa(sym("dst", 0, 65535), 4), LK.AddressType.group), "a printed link layer frame")
'''


def ctx_text(tier):
    gm = [k + "." + r for k in ("read", "write", "response") for r in ("req", "ind", "con") if (k, r) != ("response", "req")]
    types = ("DPT_Switch", "DPT_Brightness") if tier == "quick" else ("DPT_Switch", "DPT_Brightness", "DPT_Alarm", "DPT_Start", "DPT_UpDown")
    for what in gm:
        for typ in types:
            for number, name in ((5, "kitchen"), (0, None), (65535, "")):
                yield "group_message", dict(what=what, number=number, name=name, typ=typ)
    for what in gm:
        for number, name in ((0, None), (7, "kitchen")):
            yield "property_message", dict(what=what, number=number, name=name)
    for what in ("search.req", "connect.req", "connectionstate.req", "disconnect.req", "search.res", "connect.res", "disconnect.res", "ack", "tunnelling"):
        yield "core_message", dict(what=what)
    yield "objects", {}
    for n in range(4 if tier == "quick" else 7):
        yield "address_table", dict(n=n)
    base = (2, ((5, (0, 1)), (3, (1,))), ((3, "DPT_Switch"), (5, "DPT_Value_Temp")))
    yield "tables", dict(n=0, rows=(), dpts=(), ops=())
    ops = (("assoc", 5, 0), ("assoc", 9, 1), ("assoc", 9, 0, 1), ("dis", 5, 0), ("dis", 5, 1), ("dis", 3, 1), ("type", 9, "DPT_Alarm"), ("untype", 5))
    for r in range(2 if tier == "quick" else 3):
        for seq in itertools.product(ops, repeat=r):
            if len(set(seq)) == r:
                yield "tables", dict(n=base[0], rows=base[1], dpts=base[2], ops=seq)


PROPS = [
    Prop("C42", "Printed messages, tables and addresses name exactly what they hold", TEXT, ctx_text,
         "for all field values: the text is the documented one with every field under its name, in place, and the tables list exactly their "
         "present content",
         anchors=["knx_stack.definition.layer"]),
]
