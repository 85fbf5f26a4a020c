import itertools
from kx.core import Prop
from kx.props.b_decode import ALL, SIZES

MESSAGES = '''
A = knx_stack.layer.application
N = knx_stack.knxnet_ip


def request(kind):
    dpt = D.DPT_Value_Temp()
    dpt.value = sym("value", 0, 65535)
    asap = knx_stack.ASAP(5)
    if kind == "search":
        return N.core.search.req.Msg(addr="10.0.0.1", port=sym("port", 0, 65535))
    if kind == "connect":
        return N.core.connect.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=sym("port", 0, 65535),
                                      addr_data_endpoint="10.0.0.2", port_data_endpoint=sym("port2", 0, 65535))
    if kind == "connectionstate":
        return N.core.connectionstate.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=sym("port", 0, 65535))
    if kind == "disconnect":
        return N.core.disconnect.req.Msg(addr_control_endpoint="10.0.0.1", port_control_endpoint=sym("port", 0, 65535))
    if kind == "ack":
        return N.tunneling.ack.Msg(sequence_counter=sym("seq", 0, 255), status=Err.E_NO_ERROR)
    if kind == "read":
        return A.a_group_value_read.req.Msg(asap=asap)
    if kind == "write":
        return A.a_group_value_write.req.Msg(asap=asap, dpt=dpt)
    if kind == "ind":
        return A.a_group_value_write.ind.Msg(asap=asap, dpt=dpt)
    if kind == "pread":
        return A.a_property_value_read.req.Msg(asap=knx_stack.ASAP(0), object_index=1, property_id=sym("pid", 0, 255),
                                               number_of_elements=1, start_index=1)
    return A.a_property_value_write.req.Msg(asap=knx_stack.ASAP(0), object_index=1, property_id=sym("pid", 0, 255),
                                            number_of_elements=1, start_index=1, data="AB")


# what only the bus side says: there is nothing to encode
REPORTS = {
    "read.ind": A.a_group_value_read.ind.Msg(asap=knx_stack.ASAP(5), dpt=D.DPT_Switch()),
    "read.con": A.a_group_value_read.con.Msg(asap=knx_stack.ASAP(5), dpt=D.DPT_Switch(), status=0),
    "response.ind": A.a_group_value_response.ind.Msg(asap=knx_stack.ASAP(5), dpt=D.DPT_Switch()),
    "response.con": A.a_group_value_response.con.Msg(asap=knx_stack.ASAP(5), dpt=D.DPT_Switch(), status=0),
    "write.con": A.a_group_value_write.con.Msg(asap=knx_stack.ASAP(5), dpt=D.DPT_Switch(), status=0),
    "pread.ind": A.a_property_value_read.ind.Msg(asap=knx_stack.ASAP(0), object_index=1, property_id=2, number_of_elements=1, start_index=1),
    "pwrite.ind": A.a_property_value_write.ind.Msg(asap=knx_stack.ASAP(0), object_index=1, property_id=2, number_of_elements=1,
                                                   start_index=1, data=knx_stack.Msg([])),
    "connect.res": N.core.connect.res.Msg(ip="10.0.0.1", port=1, individual_address=knx_stack.Address(1), status=0),
    "search.res": N.core.search.res.Msg(ip="10.0.0.1", port=1, individual_address=knx_stack.Address(1)),
    "tunnelling": N.tunneling.req.Msg(sequence_counter=1, status=Err.E_NO_ERROR),
    "none": None,
    "text": "0123",
    "number": 7,
    "octets": knx_stack.Msg([knx_stack.Octect(value=1)]),
    "tuple": (knx_stack.ASAP(5), D.DPT_Switch()),
}


def a_state(medium):
    raws = groups(1, 0)
    return make_state(medium, sym("ia", 0, 65535), raws, ((5, (0,)),), ((5, "DPT_Value_Temp"),))
'''

DISPATCH = MESSAGES + '''
def accepted(medium, kind):
    """every request a user can make has a frame, of the message class of its medium"""
    state = a_state(medium)
    out = knx_stack.encode_msg(state, request(kind))
    check(isinstance(out, knx_stack.Msg), "encoding a request gives a message", out)
    check(len(out) > 0, "encoding a request gives octets", out)
    for o in out:
        check(isinstance(o, knx_stack.Octect), "an encoded message consists of octets", out)


def refused(medium, kind):
    state = a_state(medium)
    before = view(state)
    try:
        knx_stack.encode_msg(state, REPORTS[kind])
        ok = True
    except Exception:
        ok = False
    check(not ok, "what is no request is refused", state)
    check_eq(view(state), before, "refusing leaves the state alone", state)


def no_medium(n):
    state = a_state("tp")
    before = view(state)
    try:
        knx_stack.decode_msg(state, frame([sym("o%d" % i, 0, 255) for i in range(n)]))
        ok = True
    except Exception:
        ok = False
    check(not ok, "decoding for a medium without decoder is refused", state)
    check_eq(view(state), before, "refusing leaves the state alone", state)
'''

KINDS = ("search", "connect", "connectionstate", "disconnect", "ack", "read", "write", "ind", "pread", "pwrite")
REPORTS = ("read.ind", "read.con", "response.ind", "response.con", "write.con", "pread.ind", "pwrite.ind",
           "connect.res", "search.res", "tunnelling", "none", "text", "number", "octets", "tuple")


def ctx_dispatch(tier):
    for k in KINDS:
        for m in (("knxnet_ip",) if k in KINDS[:5] else ("knxnet_ip", "usb_hid", "tp")):
            yield "accepted", dict(medium=m, kind=k)
    for k in REPORTS:
        for m in ("knxnet_ip", "usb_hid"):
            yield "refused", dict(medium=m, kind=k)
    for n in range(0, 3 if tier == "quick" else 24):
        yield "no_medium", dict(n=n)


LIVE = '''
def probe(medium, state, raws, model, types, asaps, label):
    """what encoding and decoding do now, against the model of the tables"""
    for a in asaps:
        mine = model.get(a, [])
        for kind in ("write", "read"):
            if kind == "write":
                if a not in types:
                    continue        # what an object without datapoint type can send is not this property's concern
                dpt = D.DPT_Value_Temp()
                dpt.value = 0x0C1A
                msg = A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(a), dpt=dpt)
                apdu = [0x00, 0x80, 0x0C, 0x1A]
            else:
                msg = A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(a))
                apdu = [0x00, 0x00]
            try:
                out = knx_stack.encode_msg(state, msg)
            except Exception:
                out = None
            if mine:
                check(out is not None, label + ": an object with an address can send", state)
                same_octets(octets(out), wrap(medium, state, cemi_group(0x11, raws[mine[0]], apdu)), label + ": the frame sent")
            else:
                check(out is None, label + ": an object without address sends nothing", state)
    for i in range(len(raws)):
        cemi = cemi_any(0x29, 0xBC, 0xE0, 0x1234, raws[i], [0x00, 0x80, 0x0C, 0x1A])
        got = deliver(medium, state, cemi, label)
        want = [a for a in asaps if i in model.get(a, []) and a in types]
        check_eq(len(got), len(want), label + ": the objects reached by a telegram", got)
        for m in got:
            check(m.asap.value in want, label + ": the objects reached by a telegram", m)
            check(type(m.dpt) is getattr(D, types[m.asap.value]), label + ": the datapoint type in force", m)


def live(medium, n, rows, dpts, ops, asaps):
    raws = groups(n)
    ia = sym("ia", 0, 65535)
    for r in raws:
        assume(r != ia)
    state = make_state(medium, ia, raws, rows, dpts)
    model = {}
    for a, idx in rows:
        model[a] = list(idx)
    types = {}
    for a, name in dpts:
        types[a] = name
    probe(medium, state, raws, model, types, asaps, "before")
    for op in ops:
        a = knx_stack.ASAP(op[1])
        if op[0] == "assoc":
            state.association_table.associate(a, [gaddr(raws[i]) for i in op[2:]])
            for i in op[2:]:
                if i not in model.setdefault(op[1], []):
                    model[op[1]].append(i)
        elif op[0] == "dis":
            state.association_table.disassociate(a, [gaddr(raws[op[2]])])
            model[op[1]].remove(op[2])
        elif op[0] == "type":
            state.datapointtypes.associate(a, getattr(D, op[2]))
            types[op[1]] = op[2]
        else:
            state.datapointtypes.disassociate(a)
            del types[op[1]]
        probe(medium, state, raws, model, types, asaps, "after a change")
'''


def op_sequences(rows, dpts, n, asaps, depth):
    """all sequences of meaningful changes of the tables"""
    def go(model, types, left):
        yield ()
        if not left:
            return
        for a in asaps:
            for i in range(n):
                mine = model.get(a, ())
                if i in mine:
                    m2 = dict(model)
                    m2[a] = tuple(x for x in mine if x != i)
                    for rest in go(m2, types, left - 1):
                        yield (("dis", a, i),) + rest
                else:
                    m2 = dict(model)
                    m2[a] = mine + (i,)
                    for rest in go(m2, types, left - 1):
                        yield (("assoc", a, i),) + rest
            for t in ("DPT_Value_Temp", "DPT_Value_Wsp"):
                if types.get(a) != t:
                    t2 = dict(types)
                    t2[a] = t
                    for rest in go(model, t2, left - 1):
                        yield (("type", a, t),) + rest
            if a in types:
                t2 = dict(types)
                del t2[a]
                for rest in go(model, t2, left - 1):
                    yield (("untype", a),) + rest
    seqs = set(go({a: tuple(i) for a, i in rows}, dict(dpts), depth))
    pref = {s[:k] for s in seqs for k in range(len(s))}
    return sorted(s for s in seqs if s not in pref)


def ctx_live(tier):
    T, W = "DPT_Value_Temp", "DPT_Value_Wsp"
    starts = [(2, ((5, (0,)), (6, (0, 1))), ((5, T), (6, W)), (5, 6)),
              (2, ((5, ()), (6, (1,))), ((5, T),), (5, 6))]
    if tier != "quick":
        starts.append((3, ((5, (2, 0)), (6, (1,)), (7, (2,))), ((5, T), (7, W)), (5, 6, 7)))
    for m in ("usb_hid", "knxnet_ip"):
        for n, rows, dpts, asaps in starts:
            depth = 2 if tier == "quick" or n > 2 or m == "knxnet_ip" else 3
            for ops in op_sequences(rows, dpts, n, asaps, depth):
                if ops:
                    yield "live", dict(medium=m, n=n, rows=rows, dpts=dpts, ops=ops, asaps=asaps)


PRINT = '''
def printable(what, label):
    try:
        s = repr(what)
        t = str(what)
    except Exception:
        s = t = None
    check(s is not None, label + " can be printed", type(what).__name__)
    check(isinstance(s, str) and isinstance(t, str), label + " prints as text", type(what).__name__)


def datapoint(name):
    dpt = getattr(D, name)()
    dpt.value = value_of(name, "value")
    printable(dpt, "a datapoint")
    for cls in (A.a_group_value_write.req.Msg, A.a_group_value_write.ind.Msg, A.a_group_value_response.ind.Msg):
        printable(cls(asap=knx_stack.ASAP(5, "kitchen"), dpt=dpt), "a message with a datapoint")


def group(medium, kind, service, name, ndata):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)), (6, (0,))), ((5, name), (6, name)))
    if service == 0:
        npdu = [0x00, 0x00]
    elif ndata:
        npdu = [0x00, service << 6] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    else:
        npdu = [0x00, (service << 6) | sym("inline", 0, 63)]
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535),
                                          raws[0], npdu), "printing")
    for m in got:
        printable(m, "a decoded message")
    printable(got, "a list of decoded messages")
    printable(state, "the state")


def individual(medium, kind, service, ndata):
    raws = groups(1)
    ia = sym("ia", 0, 65535)
    state = make_state(medium, ia, raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    npdu = [0x03, 0xD4 + service] + [sym("data%d" % i, 0, 255) for i in range(4 + ndata)]
    src, dst = ia, sym("peer", 0, 65535)
    if kind == "con":
        src, dst = dst, src
    got = deliver(medium, state, cemi_any(CODES[kind], sym("ctrl1", 0, 255), sym("ctrl2", 0, 127), src, dst, npdu), "printing")
    for m in got:
        printable(m, "a decoded message")
    printable(state, "the state")


def core(kind, status):
    raws = groups(1)
    state = make_state("knxnet_ip", sym("ia", 0, 65535), raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    ip = [sym("ip%d" % i, 0, 255) for i in range(6)]
    if kind == "connect":
        o = [0x06, 0x10, 0x02, 0x06, 0, 20, sym("chan2", 0, 255), status, 8, 1] + ip + [4, 4, sym("a", 0, 255), sym("b", 0, 255)]
        if status:
            o = [0x06, 0x10, 0x02, 0x06, 0, 8, sym("chan2", 0, 255), status]
    elif kind == "connectionstate":
        o = [0x06, 0x10, 0x02, 0x08, 0, 8, sym("chan2", 0, 255), status]
    elif kind == "disconnect":
        o = [0x06, 0x10, 0x02, 0x0A, 0, 8, sym("chan2", 0, 255), status]
    elif kind == "ack":
        o = [0x06, 0x10, 0x04, 0x21, 0, 10, 4, sym("chan2", 0, 255), sym("seq", 0, 255), status]
    else:
        dib = [54, 1, 2, 0, sym("a", 0, 255), sym("b", 0, 255)] + [sym("d%d" % i, 0, 255) for i in range(48)]
        o = [0x06, 0x10, 0x02, 0x02, 0, 68] + [8, 1] + ip + dib
    got = knx_stack.decode_msg(state, ipframe(o))
    check(isinstance(got, list), "a list is returned", got)
    check(len(got) >= 1, "the response is reported", got)
    for m in got:
        printable(m, "a decoded message")
    printable(state, "the state")


def request_text(kind):
    printable(request(kind), "a request")


def tables(n, rows, dpts, ops):
    raws = groups(n, 0)
    ia = sym("ia", 0, 65535)
    for r in raws:
        assume(r != ia)
    state = make_state("usb_hid", ia, raws, rows, dpts)
    for op in ops:
        if op[0] == "assoc":
            state.association_table.associate(knx_stack.ASAP(op[1], "late"), [gaddr(raws[i]) for i in op[2:]])
        elif op[0] == "dis":
            state.association_table.disassociate(knx_stack.ASAP(op[1]), [gaddr(raws[op[2]])])
        else:
            state.datapointtypes.disassociate(knx_stack.ASAP(op[1]))
    printable(state.association_table, "the association table")
    printable(state.datapointtypes, "the group object table")
    printable(state, "the state")
    printable(state.individual_address, "an address")
    for r in raws:
        printable(gaddr(r), "a group address")
    for o in (knx_stack.Octect(value=raws[0] >> 8), knx_stack.Short(value=raws[0]), knx_stack.Long(value=raws[0])):
        printable(o, "a number of octets")
'''


def ctx_print(tier):
    for name in ALL:
        yield "datapoint", dict(name=name)
    for m in ("usb_hid", "knxnet_ip"):
        for kind in ("ind", "con"):
            for svc in (0, 1, 2):
                for name in ALL if tier != "quick" else ("DPT_Switch", "DPTSetupClima", "DPT_Value_Temp"):
                    yield "group", dict(medium=m, kind=kind, service=svc, name=name, ndata=SIZES[name])
            for svc in (1, 2, 3):
                for nd in (0, 2, 11, 40) if tier == "quick" else (*range(20), 40, 100, 200):
                    yield "individual", dict(medium=m, kind=kind, service=svc, ndata=nd if svc > 1 else 0)
    for kind, sts in (("connect", (0, 0x22, 0x23, 0x24, 0x29)), ("connectionstate", (0, 0x21, 0x26, 0x27)),
                      ("disconnect", (0,)), ("ack", (0, 1, 2, 4, 0x21)), ("search", (0,))):
        for s in sts:
            yield "core", dict(kind=kind, status=s)
    for k in KINDS:
        yield "request_text", dict(kind=k)
    T = "DPT_Switch"
    yield "tables", dict(n=1, rows=(), dpts=(), ops=())
    yield "tables", dict(n=2, rows=((5, (0,)), (6, (0, 1))), dpts=((5, T), (6, T)), ops=())
    yield "tables", dict(n=2, rows=((5, (0,)), (6, (0, 1))), dpts=((5, T), (6, T)),
                         ops=(("dis", 5, 0), ("untype", 6), ("assoc", 7, 1)))


PROPS = [
    Prop("C27", "Exactly the requests are encoded; everything else is refused without effect", DISPATCH, ctx_dispatch,
         "for every request class: a message of octets; for every class that only reports, and anything that is no message: an "
         "exception and an unchanged state; decoding is refused for a medium without decoder",
         anchors=["knx_stack"]),
    Prop("C32", "A change of the tables takes effect on the very next message", LIVE, ctx_live,
         "after every prefix of every history of table changes up to the bound, frames sent and objects reached are those the "
         "tables prescribe at that moment", anchors=["knx_stack.state"]),
    Prop("C33", "Whatever the stack returns can be printed", MESSAGES + PRINT, ctx_print,
         "for all field values: repr and str of every decoded message, request, datapoint, table and state return text and do not raise",
         anchors=["knx_stack.datapointtypes"]),
]
