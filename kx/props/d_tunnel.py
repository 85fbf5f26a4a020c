from kx.core import Prop

ACK = '''
def ack(case, status):
    """acknowledge a request with counter seq while the next expected counter is remote"""
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    remote, local, chan = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    if case == "expected":
        seq = remote
        counter, after = remote, (remote + 1) % 256
    elif case == "repeated":
        seq = (remote + 255) % 256
        counter, after = seq, remote
    else:
        seq = sym("seq", 0, 255)
        assume(seq != remote)
        assume(seq != (remote + 255) % 256)
        counter, after = remote, remote
    st = Err(status)
    msg = knx_stack.knxnet_ip.tunneling.ack.Msg(sequence_counter=seq, status=st)
    tables = table_view(state)
    out = octets(knx_stack.encode_msg(state, msg))
    same_octets(out, [6, 0x10, 4, 0x21, 0, 10, 4, chan, counter, status], "tunnelling acknowledge")
    check_eq(state.sequence_counter_remote, after, "next expected counter after the acknowledge", state)
    check_eq(state.sequence_counter_local, local, "own counter untouched by an acknowledge", state)
    check_eq(state.communication_channel_id, chan, "channel untouched by an acknowledge", state)
    check_eq(table_view(state), tables,
          "tables untouched by an acknowledge", state)


def ack_history(n, begin=None):
    """n in-order requests, each acknowledged once: the counters of the acknowledges run through 0..255 and wrap"""
    state = make_state("knxnet_ip", 0x1001, groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    if begin is not None:
        state.sequence_counter_remote = begin
    start = state.sequence_counter_remote
    for k in range(n):
        m = knx_stack.knxnet_ip.tunneling.ack.Msg(sequence_counter=(start + k) % 256, status=Err.E_NO_ERROR)
        out = octets(knx_stack.encode_msg(state, m))
        check_eq(out[8], (start + k) % 256, "counter of the acknowledge in a run of requests", out)
    check_eq(state.sequence_counter_remote, (start + n) % 256, "expected counter after a run of requests", state)
'''


def ctx_ack(tier):
    for case in ("expected", "repeated", "other"):
        for st in (0, 1, 2, 4, 0x21) if tier != "quick" else (0, 4, 0x21):
            yield "ack", dict(case=case, status=st)
    yield "ack_history", dict(n=3)
    yield "ack_history", dict(n=300, begin=0)
    yield "ack_history", dict(n=270, begin=251)


RECV = '''
def treq(seq, cemi, chan):
    t = len(cemi) + 10
    return [6, 0x10, 4, 0x20, t >> 8, t & 255, 4, chan, seq, sym("reserved", 0, 255)] + cemi


def receive(case, service, name, ndata):
    raws = groups(1)
    state = make_state("knxnet_ip", sym("ia", 0, 65535), raws, ((5, (0,)), (6, (0,))), ((5, name), (6, name)))
    remote, local, chan = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    if case == "expected":
        seq = remote
    elif case == "repeated":
        seq = (remote + 255) % 256
    else:
        seq = sym("seq", 0, 255)
        assume(seq != remote)
        assume(seq != (remote + 255) % 256)
    if ndata:
        npdu = [0x00, service << 6] + [sym("data%d" % i, 0, 255) for i in range(ndata)]
    else:
        npdu = [0x00, service << 6]
    cemi = cemi_any(0x29, sym("ctrl1", 0, 255), 0x80 | sym("ctrl2", 0, 127), sym("src", 0, 65535), raws[0], npdu)
    got = knx_stack.decode_msg(state, ipframe(treq(seq, cemi, sym("channel", 0, 255))))
    check(len(got) >= 1, "the tunnelling request is reported", got)
    first = got[0]
    check(isinstance(first, knx_stack.knxnet_ip.tunneling.req.Msg), "the tunnelling request is reported first", got)
    check_eq(first.sequence_counter, seq, "reported counter is the counter of the request", first)
    if case == "other":
        check(first.status is Err.E_SEQUENCE_NUMBER, "a request out of sequence is reported as such", first)
    else:
        check(first.status is Err.E_NO_ERROR, "an acceptable request is reported without error", first)
    if case == "expected":
        check_eq(len(got), 3, "an expected request is delivered to every associated object once", got)
        for m in got[1:]:
            check(isinstance(m, GROUP_KINDS[("ind", service)]), "kind of the message delivered", m)
    else:
        check_eq(len(got), 1, "a repeated or out of sequence request delivers nothing", got)
    check_eq(state.sequence_counter_remote, remote, "reception alone does not advance the expected counter", state)
    check_eq(state.sequence_counter_local, local, "reception does not touch the own counter", state)
    check_eq(state.communication_channel_id, chan, "reception does not touch the channel", state)


def once(n, copies, begin=None):
    """a peer that sends n requests, each `copies` times (lost acknowledges): each is delivered exactly once"""
    raws = groups(1)
    state = make_state("knxnet_ip", 0x1001, raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    if begin is not None:
        state.sequence_counter_remote = begin
    seq = state.sequence_counter_remote
    for k in range(n):
        delivered = 0
        for c in range(copies):
            cemi = cemi_any(0x29, 0xBC, 0xE0, 0x1102, raws[0], [0x00, 0x80 | sym("bit%d" % k, 0, 1)])
            got = knx_stack.decode_msg(state, ipframe(treq(seq, cemi, state.communication_channel_id)))
            delivered += len(got) - 1
            check(got[0].status is Err.E_NO_ERROR, "no copy of a request is refused", got)
            reply = octets(knx_stack.encode_msg(state, knx_stack.knxnet_ip.tunneling.ack.Msg(
                sequence_counter=got[0].sequence_counter, status=got[0].status)))
            check_eq(reply[8], seq, "every copy of a request is acknowledged with its own counter", reply)
            check_eq(reply[9], 0, "every copy of a request is acknowledged without error", reply)
        check_eq(delivered, 1, "each request is delivered exactly once", state)
        seq = (seq + 1) % 256
'''


def ctx_recv(tier):
    for case in ("expected", "repeated", "other"):
        for svc, name, nd in ((0, "DPT_Switch", 0), (1, "DPT_Value_Temp", 2), (2, "DPT_Switch", 0),
                              (2, "DPT_Value_Power", 4)):
            yield "receive", dict(case=case, service=svc, name=name, ndata=nd)
    yield "once", dict(n=2, copies=2)
    yield "once", dict(n=2, copies=12)
    yield "once", dict(n=20, copies=2, begin=247)
    if tier != "quick":
        yield "once", dict(n=4, copies=3)
        yield "once", dict(n=260, copies=2, begin=0)


LOCAL = '''
def ack_received(case, status):
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    remote, local, chan = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    if case == "current":
        seq = local
        after = (local + 1) % 256
    else:
        seq = sym("seq", 0, 255)
        assume(seq != local)
        after = local
    got = knx_stack.decode_msg(state, ipframe([6, 0x10, 4, 0x21, 0, 10, 4, sym("channel", 0, 255), seq, status]))
    check_eq(len(got), 1, "the acknowledge is reported", got)
    check(isinstance(got[0], knx_stack.knxnet_ip.tunneling.ack.Msg), "the acknowledge is reported", got)
    check(got[0].status is Err(status), "the status of the acknowledge is reported", got[0])
    if status == 0 or case != "current":
        check_eq(state.sequence_counter_local, after, "own counter after an acknowledge", state)
    check_eq(state.sequence_counter_remote, remote, "expected counter untouched by a received acknowledge", state)
    check_eq(state.communication_channel_id, chan, "channel untouched by a received acknowledge", state)


def write_msg(state, kind):
    if kind == "write":
        dpt = D.DPT_Switch()
        return A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt)
    if kind == "read":
        return A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(5))
    return A.a_property_value_read.req.Msg(asap=knx_stack.ASAP(5), object_index=1, property_id=2,
                                           number_of_elements=1, start_index=1)


def send(kind):
    """a request carries the current counter; sending (or repeating) it does not advance it, its acknowledge does"""
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    remote, local, chan = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    one = octets(knx_stack.encode_msg(state, write_msg(state, kind)))
    two = octets(knx_stack.encode_msg(state, write_msg(state, kind)))
    check_eq(one[8], local, "counter of a tunnelling request", one)
    check_eq(one[7], chan, "channel of a tunnelling request", one)
    same_octets(two, one, "a repeated request is the same frame")
    check_eq(state.sequence_counter_local, local, "sending does not advance the own counter", state)
    check_eq(state.sequence_counter_remote, remote, "sending does not touch the expected counter", state)
    check_eq(state.communication_channel_id, chan, "sending does not touch the channel", state)
    knx_stack.decode_msg(state, ipframe([6, 0x10, 4, 0x21, 0, 10, 4, chan, local, 0]))
    knx_stack.decode_msg(state, ipframe([6, 0x10, 4, 0x21, 0, 10, 4, chan, local, 0]))
    three = octets(knx_stack.encode_msg(state, write_msg(state, kind)))
    check_eq(three[8], (local + 1) % 256, "counter of the next request after the acknowledge", three)
    check_eq(state.sequence_counter_remote, remote, "expected counter untouched by own requests", state)


def acknowledged(n, copies, begin=None):
    """n requests, each repeated and then acknowledged, with requests of the peer in between"""
    raws = groups(1)
    state = make_state("knxnet_ip", 0x1001, raws, ((5, (0,)),), ((5, "DPT_Switch"),))
    if begin is not None:
        state.sequence_counter_local, state.sequence_counter_remote = begin
    local, remote, chan = state.sequence_counter_local, state.sequence_counter_remote, state.communication_channel_id
    for k in range(n):
        for c in range(copies):
            out = octets(knx_stack.encode_msg(state, write_msg(state, ("write", "read", "pread")[(k + c) % 3])))
            check_eq(out[8], (local + k) % 256, "counter of a tunnelling request", out)
        knx_stack.decode_msg(state, ipframe([6, 0x10, 4, 0x21, 0, 10, 4, chan, (local + k) % 256, 0]))
        knx_stack.encode_msg(state, knx_stack.knxnet_ip.tunneling.ack.Msg(sequence_counter=(remote + k) % 256,
                                                                         status=Err.E_NO_ERROR))
        check_eq(state.sequence_counter_local, (local + k + 1) % 256, "own counter after an acknowledge", state)
'''


def ctx_local(tier):
    for case in ("current", "other"):
        for st in (0, 1, 2, 4, 0x21):
            yield "ack_received", dict(case=case, status=st)
    for k in ("write", "read", "pread"):
        yield "send", dict(kind=k)
    yield "acknowledged", dict(n=3, copies=2)
    yield "acknowledged", dict(n=20, copies=2, begin=(245, 240))
    if tier != "quick":
        yield "acknowledged", dict(n=260, copies=2, begin=(0, 7))
    yield "acknowledged", dict(n=2, copies=12)


COREDEC = '''
def ip_state():
    return make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))


def head(service, body):
    t = len(body) + 6
    return [6, 0x10, service >> 8, service & 255, t >> 8, t & 255] + body


def quad(tag):
    return [sym("%s%d" % (tag, i), 0, 255) for i in range(4)]


def others_same(state, remote, local, tables):
    check_eq(state.sequence_counter_remote, remote, "expected counter untouched by a core response", state)
    check_eq(state.sequence_counter_local, local, "own counter untouched by a core response", state)
    check_eq(table_view(state), tables,
          "tables untouched by a core response", state)


def connect_res(status, hpai):
    state = ip_state()
    remote, local, old = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    tables = table_view(state)
    chan, ip, port, addr = sym("new_channel", 1, 255), quad("ip"), sym("port", 0, 65535), sym("addr", 0, 65535)
    body = [chan, status]
    if hpai:
        body = body + [8, 1] + ip + [port >> 8, port & 255]
    if status == 0:
        body = body + [4, 4, addr >> 8, addr & 255]
    got = knx_stack.decode_msg(state, ipframe(head(0x0206, body)))
    check_eq(len(got), 1, "a connect response is reported", got)
    m = got[0]
    check(isinstance(m, knx_stack.knxnet_ip.core.connect.res.Msg), "kind of a connect response", m)
    check_eq(m.status.value, status, "status of a connect response", m)
    if hpai:
        check_eq(m.ip, socket.inet_ntoa(bytes(ip)), "data endpoint address of a connect response", m)
        check_eq(m.port, port, "data endpoint port of a connect response", m)
    if status == 0:
        check_eq(m.individual_address.free_style, addr, "individual address of a connect response", m)
        check_eq(state.communication_channel_id, chan, "channel adopted from a successful connect response", state)
    else:
        check_eq(state.communication_channel_id, old, "a refused connection does not change the channel", state)
    others_same(state, remote, local, tables)


def disconnect_res(status):
    state = ip_state()
    remote, local, old = state.sequence_counter_remote, state.sequence_counter_local, state.communication_channel_id
    tables = table_view(state)
    chan = sym("closed_channel", 0, 255)
    got = knx_stack.decode_msg(state, ipframe(head(0x020A, [chan, status])))
    if status == 0:
        check_eq(len(got), 1, "a disconnect response is reported", got)
        check(isinstance(got[0], knx_stack.knxnet_ip.core.disconnect.res.Msg), "kind of a disconnect response", got)
        check_eq(got[0].communication_channel_id, chan, "channel of a disconnect response", got)
        check_eq(got[0].status, 0, "status of a disconnect response", got)
        check_eq(state.communication_channel_id, 0, "channel cleared by a disconnect response", state)
    else:
        check_eq(state.communication_channel_id, old, "a refused disconnect does not change the channel", state)
    others_same(state, remote, local, tables)


def state_res(status):
    state = ip_state()
    before = view(state)
    got = knx_stack.decode_msg(state, ipframe(head(0x0208, [sym("channel", 0, 255), status])))
    check_eq(len(got), 1, "a connectionstate response is reported", got)
    check(isinstance(got[0], knx_stack.knxnet_ip.core.connectionstate.res.Msg), "kind of a connectionstate response", got)
    check_eq(got[0].status.value, status, "status of a connectionstate response", got)
    check_eq(view(state), before, "a connectionstate response changes nothing", state)


def search_res(names):
    state = ip_state()
    before = view(state)
    ip, port, addr = quad("ip"), sym("port", 0, 65535), sym("addr", 0, 65535)
    dib = [0x36, 0x01, sym("medium", 0, 255), sym("device_status", 0, 255), addr >> 8, addr & 255,
           0, 0] + [sym("serial%d" % i, 0, 255) for i in range(6)] + quad("multicast") + [0, 0, 0, 0, 0, 0]
    dib = dib + [sym("name%d" % i, 0, 255) if i < names else 0 for i in range(30)]
    dib = dib + [0x08, 0x02, 0x02, 0x01, 0x03, 0x01, 0x04, 0x01]
    got = knx_stack.decode_msg(state, ipframe(head(0x0202, [8, 1] + ip + [port >> 8, port & 255] + dib)))
    check_eq(len(got), 1, "a search response is reported", got)
    m = got[0]
    check(isinstance(m, knx_stack.knxnet_ip.core.search.res.Msg), "kind of a search response", m)
    check_eq(m.ip, socket.inet_ntoa(bytes(ip)), "control endpoint address of a search response", m)
    check_eq(m.port, port, "control endpoint port of a search response", m)
    check(isinstance(m.individual_address, knx_stack.Address), "type of the address of a search response", m)
    check_eq(m.individual_address.free_style, addr, "individual address of a search response", m)
    check_eq(view(state), before, "a search response changes nothing", state)


'''

LIFE = '''
def head(service, body):
    t = len(body) + 6
    return [6, 0x10, service >> 8, service & 255, t >> 8, t & 255] + body


def lifecycle(order):
    """channel carried by requests after a history of connect/disconnect responses"""
    state = make_state("knxnet_ip", sym("ia", 0, 65535), groups(1), ((5, (0,)),), ((5, "DPT_Switch"),))
    current = state.communication_channel_id
    for k, ev in enumerate(order):
        chan = sym("chan%d" % k, 1, 255)
        if ev == "connect":
            body = [chan, 0, 8, 1, 1, 2, 3, 4, 5, 6, 4, 4, 0x11, 0x05]
            knx_stack.decode_msg(state, ipframe(head(0x0206, body)))
            current = chan
        elif ev == "refused":
            knx_stack.decode_msg(state, ipframe(head(0x0206, [chan, 0x24])))
        elif ev == "state":
            knx_stack.decode_msg(state, ipframe(head(0x0208, [chan, 0])))
        elif ev == "search":
            pass
        else:
            knx_stack.decode_msg(state, ipframe(head(0x020A, [chan, 0])))
            current = 0
        req = knx_stack.knxnet_ip.core.connectionstate.req.Msg(addr_control_endpoint="1.2.3.4",
                                                               port_control_endpoint=5)
        check_eq(octets(knx_stack.encode_msg(state, req))[6], current, "channel carried after connection events", state)
        w = A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(5))
        check_eq(octets(knx_stack.encode_msg(state, w))[7], current, "channel carried after connection events", state)
'''


def ctx_coredec(tier):
    yield "connect_res", dict(status=0, hpai=True)
    for st in (0x22, 0x23, 0x24, 0x29):
        for h in (True, False):
            yield "connect_res", dict(status=st, hpai=h)
    for st in (0, 1, 2, 4, 0x21):
        yield "disconnect_res", dict(status=st)
    for st in (0, 0x21, 0x26, 0x27):
        yield "state_res", dict(status=st)
    for n in (0, 30):
        yield "search_res", dict(names=n)


def ctx_life(tier):
    evs = ("connect", "refused", "state", "disconnect")
    n = 3 if tier == "quick" else 4
    import itertools
    for long in (evs * 4, ("connect",) * 12, ("connect", "disconnect") * 8, ("refused",) * 12 + ("connect",),
                 ("disconnect", "state", "connect", "state", "refused") * (4 if tier == "quick" else 20)):
        yield "lifecycle", dict(order=long)
    for k in range(1, n + 1):
        for o in itertools.product(evs, repeat=k):
            yield "lifecycle", dict(order=o)


PROPS = [
    Prop("C06", "A tunnelling acknowledge echoes the request and advances the counter once", ACK, ctx_ack,
         "every octet of an encoded acknowledge and the counters afterwards are the prescribed function of the "
         "free request counter, expected counter, channel and status, in all three sequence cases",
         anchors=["knx_stack.encode.knxnet_ip.tunneling.ack"]),
    Prop("C15", "Tunnelled requests are delivered exactly once, in sequence, across wrap-around", RECV, ctx_recv,
         "for every request counter and expected counter: delivery exactly when equal, acknowledgeable repeat "
         "when one behind modulo 256, sequence error otherwise; reception leaves the connection state alone",
         anchors=["knx_stack.decode.knxnet_ip.tunneling.req"]),
    Prop("C16", "The own tunnelling counter advances exactly on its acknowledge", LOCAL, ctx_local,
         "the counter of a request, before and after any acknowledge, is the prescribed function of the free "
         "counters; sending never advances it",
         anchors=["knx_stack.decode.knxnet_ip.tunneling.ack", "knx_stack.encode.knxnet_ip.tunneling.req"]),
    Prop("C17", "KNXnet/IP core responses are reported with the endpoint and status they carry", COREDEC, ctx_coredec,
         "every field of a decoded search/connect/connectionstate/disconnect response is the prescribed function "
         "of the free octets of the frame; only connect/disconnect change the channel"),
    Prop("C18", "The channel used is the one of the last successful connection", LIFE, ctx_life,
         "after every history of connect/refused/state/disconnect responses up to the bound, requests carry the "
         "channel of the last successful connect response, or zero after a disconnect"),
]
