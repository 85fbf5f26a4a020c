import itertools
from kx.core import Prop

TUNNEL = '''
import asyncio
import knx_stack.client.knxnet_ip

LOCAL, LPORT, REMOTE, RPORT = "10.0.0.1", 5544, "10.0.0.2", 3671
ME = [10, 0, 0, 1, 0x15, 0xA8]


class Transport:
    """records what is sent, with the connection state at that moment"""

    def __init__(self, state):
        self.state = state
        self.sent = []
        self.closed = False

    def sendto(self, data, addr=None):
        self.sent.append((list(data), addr, self.state.communication_channel_id, self.state.sequence_counter_local,
                          self.state.sequence_counter_remote))

    def close(self):
        self.closed = True

    def is_closing(self):
        return self.closed


class Enough(Exception):
    pass


class World:
    """what happens while the client waits: one batch of datagrams per wait"""

    def __init__(self):
        self.batches = []
        self.client = None
        self.model = None

    def next(self):
        if not self.batches:
            raise Enough()
        for what in self.batches.pop(0):
            happen(self.client, self.model, what)


WORLD = []


async def pause(delay=0, result=None):
    WORLD[-1].next()
    return result


fake("asyncio.sleep", pause)


def tables(ia, raws):
    at = knx_stack.AddressTable(knx_stack.Address(ia), [], 255)
    assoc = knx_stack.AssociationTable(at, [])
    assoc.associate(knx_stack.ASAP(5), [gaddr(raws[0])])
    assoc.associate(knx_stack.ASAP(6), [gaddr(raws[1])])
    got = knx_stack.GroupObjectTable()
    got.associate(knx_stack.ASAP(5), D.DPT_Switch)
    got.associate(knx_stack.ASAP(6), D.DPT_Value_Temp)
    return assoc, got


class Model:
    """what the gateway may expect of a tunnelling client"""

    def __init__(self, state, raws, transport):
        self.state, self.raws, self.transport = state, raws, transport
        self.channel = 0
        self.expected = None
        self.n = 0
        self.seen = 0           # frames already judged
        self.connected = False

    def fresh(self, name, top):
        self.n += 1
        return sym("%s%d" % (name, self.n), 0, top)

    def frames(self):
        new = self.transport.sent[self.seen:]
        self.seen = len(self.transport.sent)
        for data, addr, channel, local, remote in new:
            check(addr is None or addr == (REMOTE, RPORT), "everything is sent to the gateway", addr)
        return [f[0] for f in new]


def happen(client, model, what):
    """one datagram arrives; the client's reaction is judged"""
    state, raws = model.state, model.raws
    if what == "connect":
        ch = model.fresh("channel", 255)
        ip = [model.fresh("ip", 255) for i in range(6)]
        o = [0x06, 0x10, 0x02, 0x06, 0, 20, ch, 0, 8, 1] + ip + [4, 4, model.fresh("ih", 255), model.fresh("il", 255)]
        model.channel, model.expected, model.connected = ch, 0, True
        client.datagram_received(bytes(o), (REMOTE, RPORT))
        got = model.frames()
        check_eq(len(got), 1, "a successful connect response is answered by one frame", client)
        same_octets(got[0], [0x06, 0x10, 0x02, 0x07, 0, 16, ch, 0, 8, 1] + ME, "the connection state request after connecting")
        check_eq(state.sequence_counter_local, 0, "a new connection starts counting at zero", state)
        check_eq(state.sequence_counter_remote, 0, "a new connection starts counting at zero", state)
        check(client.connected is True, "the client knows that it is connected", client)
    elif what in ("refuse22", "refuse23", "refuse24", "refuse29"):
        o = [0x06, 0x10, 0x02, 0x06, 0, 8, model.fresh("channel", 255), int(what[6:], 16)]
        was = bool(client.connected)
        client.datagram_received(bytes(o), (REMOTE, RPORT))
        check_eq(len(model.frames()), 0, "nothing is sent after a refusal", client)
        check(bool(client.connected) is was, "a refusal is no connection", client)
    elif what in ("alive", "bye", "found", "ack"):
        if what == "alive":
            o = [0x06, 0x10, 0x02, 0x08, 0, 8, model.channel, 0]
        elif what == "bye":
            o = [0x06, 0x10, 0x02, 0x0A, 0, 8, model.channel, 0]
            model.channel = 0
        elif what == "ack":
            o = [0x06, 0x10, 0x04, 0x21, 0, 10, 4, model.channel, state.sequence_counter_local, 0]
        else:
            o = [0x06, 0x10, 0x02, 0x02, 0, 68, 8, 1] + [model.fresh("f", 255) for i in range(60)]
        was = bool(client.connected)
        client.datagram_received(bytes(o), (REMOTE, RPORT))
        check_eq(len(model.frames()), 0, "no frame is sent for what needs no answer", client)
        check(what == "bye" or bool(client.connected) is was, "only a connect response connects", client)
    else:
        # a tunnelling request: the expected one, the one before again, or one out of sequence
        remote = state.sequence_counter_remote
        if what[:3] == "req":
            seq = remote
        elif what == "again":
            seq = (remote + 255) % 256
        else:
            seq = model.fresh("seq", 255)
            assume(seq != remote)
            assume(seq != (remote + 255) % 256)
        cemi = carried(what, model, raws)
        o = [0x06, 0x10, 0x04, 0x20, 0, 10 + len(cemi), 4, model.channel, seq, 0] + cemi
        client.datagram_received(bytes(o), (REMOTE, RPORT))
        got = model.frames()
        if what == "stray":
            check_eq(len(got), 0, "a request out of sequence is not acknowledged", client)
        else:
            check_eq(len(got), 1, "a request is acknowledged exactly once", client)
            same_octets(got[0], [0x06, 0x10, 0x04, 0x21, 0, 10, 4, model.channel, seq, 0], "the acknowledge of a request")
        check_eq(state.sequence_counter_remote, (remote + 1) % 256 if what[:3] == "req" else remote,
                 "only the expected request advances the counter", state)


def carried(what, model, raws):
    """the telegram in a tunnelling request; whether it reaches an object or not is no matter of the tunnel"""
    c1 = model.fresh("c1", 255)
    src = model.fresh("src", 65535)
    if what == "req unknown":
        dst = model.fresh("dst", 65535)
        assume(dst != 0)
        for r in raws:
            assume(dst != r)
        return cemi_any(0x29, c1, 0xE0, src, dst, [0x00, 0x80 | model.fresh("d", 63)])
    if what == "req con":
        return cemi_any(0x2E, c1, 0xE0, src, raws[1], [0x00, 0x80, model.fresh("d", 255), model.fresh("d", 255)])
    if what == "req read":
        return cemi_any(0x29, c1, 0xE0, src, raws[1], [0x00, 0x00])
    if what == "req prop":
        return cemi_any(0x29, c1, 0x60, src, model.fresh("dst", 65535), [0x03, 0xD5, model.fresh("d", 255), model.fresh("d", 255), 0x10, 0x01])
    if what == "req control":
        return cemi_any(0x29, c1, 0x60, src, model.fresh("dst", 65535), [0x80 | (model.fresh("d", 1))])
    if what == "req busmon":
        return [0x2B, 0x00] + [model.fresh("d", 255) for i in range(9)]
    if what == "req info":
        cemi = cemi_any(0x29, c1, 0xE0, src, raws[1], [0x00, 0x80, model.fresh("d", 255), model.fresh("d", 255)])
        return [cemi[0], 4, 3, 2, model.fresh("d", 255), model.fresh("d", 255)] + cemi[2:]
    return cemi_any(0x29, 0xBC, 0xE0, src, raws[1], [0x00, 0x80, model.fresh("d", 255), model.fresh("d", 255)])


def start(msgs, raws):
    ia = sym("ia", 0, 65535)
    for r in raws:
        assume(r != ia)
    assoc, got = tables(ia, raws)
    state = knx_stack.knxnet_ip.State(knx_stack.Medium.knxnet_ip, assoc, got)
    client = knx_stack.client.knxnet_ip.Tunneling(LOCAL, LPORT, REMOTE, RPORT, state, msgs)
    t = Transport(state)
    check(not client.connected, "a client is not connected before the gateway says so", client)
    client.connection_made(t)
    model = Model(state, raws, t)
    got = model.frames()
    check_eq(len(got), 1, "opening sends one connect request", client)
    same_octets(got[0], [0x06, 0x10, 0x02, 0x05, 0, 26, 8, 1] + ME + [8, 1] + ME + [4, 4, 2, 0], "the connect request")
    check(not client.connected, "a client is not connected before the gateway says so", client)
    w = World()
    w.client, w.model = client, model
    WORLD.append(w)
    return client, model, w


'''

TRAFFIC = TUNNEL + '''
def traffic(events):
    """every reaction of the protocol object, over a history of datagrams"""
    client, model, w = start([], groups(2))
    for what in events:
        if what in ("error", "lost"):
            before = [state_of(client), bool(client.connected)]
            if what == "error":
                client.error_received(OSError("unreachable"))
            else:
                client.connection_lost(None)
            check_eq(len(model.frames()), 0, "an error of the network sends nothing", client)
            check_eq([state_of(client), bool(client.connected)][:1], before[:1], "an error of the network leaves the counters alone", client)
        else:
            happen(client, model, what)


def state_of(client):
    state = WORLD[-1].model.state
    return [state.communication_channel_id, state.sequence_counter_local, state.sequence_counter_remote]


def opened():
    """the coroutine that opens the tunnel"""
    raws = groups(2)
    assoc, got = tables(sym("ia", 0, 65535), raws)
    state = knx_stack.knxnet_ip.State(knx_stack.Medium.knxnet_ip, assoc, got)
    pair = asyncio.run(knx_stack.client.knxnet_ip.start_tunneling(LOCAL, LPORT, REMOTE, RPORT, state, []))
    check_eq(len(pair), 2, "opening a tunnel gives the transport and the protocol", pair)
    client = pair[1]
    check(isinstance(client, knx_stack.client.knxnet_ip.Tunneling), "the protocol is the tunnelling client", client)
    t = Transport(state)
    client.connection_made(t)
    check_eq(len(t.sent), 1, "opening sends one connect request", client)
    same_octets(t.sent[0][0], [0x06, 0x10, 0x02, 0x05, 0, 26, 8, 1] + ME + [8, 1] + ME + [4, 4, 2, 0], "the connect request")
    check(t.sent[0][1] is None or t.sent[0][1] == (REMOTE, RPORT), "everything is sent to the gateway", client)
'''

WRITING = TUNNEL + '''
def given(msgs, form):
    """any iterable of messages will do"""
    if form == "tuple":
        return tuple(msgs)
    if form == "generator":
        return (m for m in msgs)
    if form == "iterator":
        return iter(msgs)
    return msgs


def writing(batches, kinds, form="list"):
    """the writer coroutine, with datagrams arriving whenever it waits"""
    raws = groups(2)
    msgs, cemis = [], []
    for i, k in enumerate(kinds):
        if k == "same":
            # the very message sent first
            msgs.append(msgs[0])
            cemis.append(cemis[0])
        elif k == "read":
            msgs.append(A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(6)))
            cemis.append(cemi_group(0x11, raws[1], [0x00, 0x00]))
        elif k == "switch":
            v = sym("on%d" % i, 0, 1)
            dpt = D.DPT_Switch()
            dpt.value = v
            msgs.append(A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
            cemis.append(cemi_group(0x11, raws[0], [0x00, 0x80 | v]))
        else:
            v = sym("temp%d" % i, 0, 65535)
            dpt = D.DPT_Value_Temp()
            dpt.value = v
            msgs.append(A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(6), dpt=dpt))
            cemis.append(cemi_group(0x11, raws[1], [0x00, 0x80, v >> 8, v & 255]))
    client, model, w = start(given(msgs, form), raws)
    judge = Judge(model, cemis)
    w.model = judge
    w.batches = [list(b) for b in batches]
    try:
        asyncio.run(client.writer())
        ended = True
    except Enough:
        ended = False
    judge.frames()
    if judge.connected:
        check(judge.sent >= 1 or not cemis, "a connected client sends", client)
        check(not ended or judge.sent == len(cemis), "every message is sent before the writer ends", client)
    else:
        check_eq(judge.sent, 0, "nothing is sent before the connection is established", client)
        check(not ended, "the writer waits for the connection", client)


class Judge(Model):
    """splits what the writer sent from the answers to datagrams"""

    def __init__(self, model, cemis):
        self.state, self.raws, self.transport = model.state, model.raws, model.transport
        self.channel, self.expected, self.n, self.seen = model.channel, model.expected, model.n, model.seen
        self.connected = model.connected
        self.cemis, self.sent = cemis, 0

    def frames(self):
        rest = []
        for data, addr, channel, local, remote in self.transport.sent[self.seen:]:
            check(addr is None or addr == (REMOTE, RPORT), "everything is sent to the gateway", addr)
            if data[2] == 0x04 and data[3] == 0x20:
                check(self.connected, "nothing is sent before the connection is established", addr)
                check(self.sent < len(self.cemis), "each message is sent only once", addr)
                cemi = self.cemis[self.sent]
                n = 10 + len(cemi)
                same_octets(data, [0x06, 0x10, 0x04, 0x20, 0, n, 4, channel, local, 0] + cemi, "the tunnelling request sent")
                self.sent += 1
            else:
                rest.append(data)
        self.seen = len(self.transport.sent)
        return rest
'''

EVENTS = ("connect", "refuse22", "refuse24", "refuse29", "alive", "bye", "found", "ack", "req", "again", "stray")


def ctx_traffic(tier):
    yield "opened", {}
    top = 2 if tier == "quick" else 3
    for n in range(1, top + 1):
        for ev in itertools.product(EVENTS + ("error",), repeat=n):
            yield "traffic", dict(events=("connect",) + ev)
    for ev in (("refuse22",), ("refuse23",), ("refuse24",), ("refuse29",), ("found",), ("alive",)):
        yield "traffic", dict(events=ev)
        yield "traffic", dict(events=ev + ("connect", "req", "again"))
    for ev in ((), ("connect",), ("connect", "req"), ("refuse24",), ("connect", "bye")):
        yield "traffic", dict(events=ev + ("lost",))
    kinds = ("req unknown", "req con", "req read", "req prop", "req control", "req busmon", "req info")
    for a in kinds:
        for b in kinds if tier != "quick" else ("again", "req unknown"):
            yield "traffic", dict(events=("connect", a, b, "req"))
    yield "traffic", dict(events=("connect", "req", "req", "req", "stray", "again", "req", "bye", "connect", "req", "again"))
    # long histories
    long = 280
    yield "traffic", dict(events=("connect",) + ("req",) * long + ("again", "req"))
    yield "traffic", dict(events=("connect",) + ("again",) * 12 + ("stray",) * 12 + ("req",))
    yield "traffic", dict(events=("refuse24",) * 12 + ("connect",) + ("req", "again", "stray") * 4)
    yield "traffic", dict(events=("connect", "req", "bye") * 6 + ("connect", "req"))
    for step in (5, 7) if tier == "quick" else (5, 7, 9, 11):
        yield "traffic", dict(events=("connect",) + tuple((EVENTS + kinds + ("error",))[(k * step + k * k) % (len(EVENTS) + len(kinds) + 1)]
                                                          for k in range(1, 40 if tier == "quick" else 120)))


def ctx_writing(tier):
    for kinds in ((), ("switch",), ("temp", "read"), ("read", "switch", "temp")):
        n = len(kinds)
        yield "writing", dict(batches=(("connect",),) + ((),) * n, kinds=kinds)
        yield "writing", dict(batches=((), (), ("connect",)) + ((),) * n, kinds=kinds)
        yield "writing", dict(batches=((), (), ()), kinds=kinds)
        for r in ("refuse22", "refuse23", "refuse24", "refuse29", "found", "alive"):
            yield "writing", dict(batches=((r,), (), (r,)), kinds=kinds)
            yield "writing", dict(batches=((r,), (r, "connect")) + ((),) * n, kinds=kinds)
    for kinds in (("switch", "same"), ("temp", "read", "same"), ("switch", "switch", "same", "same")):
        yield "writing", dict(batches=(("connect",),) + ((),) * len(kinds), kinds=kinds)
    for form in ("tuple", "generator", "iterator"):
        yield "writing", dict(batches=((), ("connect",)) + (("req",),) * 3, kinds=("temp", "read", "switch"), form=form)
    # more messages than the counter has values
    yield "writing", dict(batches=(("connect",),) + (("ack",),) * 260, kinds=("read",) * 260)
    many = ("switch", "temp", "read", "switch", "same", "temp") * (3 if tier == "quick" else 20)
    yield "writing", dict(batches=(("connect",),) + ((),) * len(many), kinds=many)
    yield "writing", dict(batches=(("connect",),) + (("ack",),) * len(many), kinds=many)
    yield "writing", dict(batches=((),) * 30 + (("refuse24",),) * 5 + (("connect",),) + (("req", "ack"),) * len(many), kinds=many)
    yield "writing", dict(batches=((),) * 60, kinds=many)
    if tier != "quick":
        many = ("switch", "temp", "read", "switch", "same", "temp") * 45
        yield "writing", dict(batches=(("connect",),) + (("ack",),) * len(many), kinds=many)
    some = ("ack", "req", "again", "stray", "alive")
    for kinds in (("temp", "read"),) if tier == "quick" else (("temp", "read"), ("switch", "temp", "switch")):
        n = len(kinds)
        pool = [()] + [(e,) for e in some] + ([] if tier == "quick" else [p for p in itertools.product(some, repeat=2)])
        for bs in itertools.product(pool, repeat=n) if n == 2 else ((b,) * n for b in pool):
            yield "writing", dict(batches=(("connect",),) + tuple(bs), kinds=kinds)
        for b in pool:
            yield "writing", dict(batches=(("connect",) + b,) + ((),) * n, kinds=kinds)


USB = '''
import asyncio
import knx_stack.client.usbhid


class Enough(Exception):
    pass


def given(msgs, form):
    """any iterable of messages will do"""
    if form == "tuple":
        return tuple(msgs)
    if form == "generator":
        return (m for m in msgs)
    if form == "iterator":
        return iter(msgs)
    return msgs


class Wire:
    def __init__(self):
        self.written = []
        self.lines = []
        self.tasks = []
        self.where = None
        self.nested = None
        self.waits = 0
        self.reads = 0

    def write(self, data):
        self.written.append(bytes(data))

    def writelines(self, datas):
        for d in datas:
            self.written.append(bytes(d))

    async def drain(self):
        return None

    def close(self):
        return None

    async def readline(self):
        self.reads += 1
        if self.where == "read" and self.reads == self.nested:
            await self.other(0)
        if not self.lines:
            raise Enough()
        return self.lines.pop(0)

    async def other(self, i):
        t = self.tasks[i]
        self.tasks[i] = None
        if t is not None:
            try:
                await t
            except Enough:
                pass


WIRE = []


async def connect(host=None, port=None):
    check_eq([host, port], ["10.0.0.9", 5555], "the client connects to the daemon it is given")
    return WIRE[-1], WIRE[-1]


async def pause(delay=0, result=None):
    w = WIRE[-1]
    w.waits += 1
    if w.where == "write" and w.waits == w.nested:
        await w.other(1)
    return result


def task(coro):
    WIRE[-1].tasks.append(coro)
    return coro


fake("asyncio.open_connection", connect)
fake("asyncio.sleep", pause)
fake("*.create_task", task)
fake("asyncio.create_task", task)
fake("asyncio.ensure_future", task)


async def run_task(w, i):
    await w.other(i)


def client(kinds, incoming_lines, order, where, nested, form="list"):
    raws = groups(2)
    ia = sym("ia", 0, 65535)
    state = make_state("usb_hid", ia, raws, ((5, (0,)), (6, (1,))), ((5, "DPT_Switch"), (6, "DPT_Value_Temp")))
    msgs, frames = [], []
    for i, k in enumerate(kinds):
        if k == "same":
            # the very message sent first
            msgs.append(msgs[0])
            frames.append(frames[0])
            continue
        if k == "read":
            msgs.append(A.a_group_value_read.req.Msg(asap=knx_stack.ASAP(6)))
            cemi = cemi_group(0x11, raws[1], [0x00, 0x00])
        elif k == "switch":
            v = sym("on%d" % i, 0, 1)
            dpt = D.DPT_Switch()
            dpt.value = v
            msgs.append(A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(5), dpt=dpt))
            cemi = cemi_group(0x11, raws[0], [0x00, 0x80 | v])
        else:
            v = sym("temp%d" % i, 0, 65535)
            dpt = D.DPT_Value_Temp()
            dpt.value = v
            msgs.append(A.a_group_value_write.req.Msg(asap=knx_stack.ASAP(6), dpt=dpt))
            cemi = cemi_group(0x11, raws[1], [0x00, 0x80, v >> 8, v & 255])
        frames.append(wrap("usb_hid", state, cemi))
    w = Wire()
    WIRE.append(w)
    w.where, w.nested = where, nested
    for i, what in enumerate(incoming_lines):
        if what == "other":
            cemi = cemi_any(0x29, 0xBC, 0xE0, sym("src%d" % i, 0, 65535), sym("dst%d" % i, 1, 65535), [0x00, 0x80, 1, 2])
        elif what == "switch":
            cemi = cemi_any(0x29, 0xBC, 0xE0, sym("src%d" % i, 0, 65535), raws[0], [0x00, 0x80 | sym("d%d" % i, 0, 63)])
        elif what == "prop":
            cemi = cemi_any(0x29, 0xB0, 0x60, sym("src%d" % i, 0, 65535), ia, [0x03, 0xD6, 1, sym("d%d" % i, 0, 255), 0x10, 1, 0xAB])
        elif what == "control":
            cemi = cemi_any(0x29, 0xB0, 0x60, sym("src%d" % i, 0, 65535), ia, [0x80 | sym("d%d" % i, 0, 1)])
        elif what == "empty":
            cemi = [0x10, 0]
        elif what == "batch":
            cemi = cemi_any(0x29, 0xB0, 0xE0, sym("src%d" % i, 0, 65535), 0, [0x00, 0xC0 | sym("d%d" % i, 0, 63)])
        else:
            cemi = cemi_any(0x2E, 0xBC, 0xE0, sym("src%d" % i, 0, 65535), raws[1], [0x00, 0x80, sym("d%d" % i, 0, 255), sym("e%d" % i, 0, 255)])
        o = incoming("usb_hid", state, cemi)
        if what == "feature":
            o = [0x01, 0x13, 0x0A, 0x00, 0x08, 0x00, 0x02, 0x0F, 0x04, 0x00, 0x00, 0x03, sym("d%d" % i, 0, 255)]
        w.lines.append((repr(knx_stack.Msg([knx_stack.Octect(value=v) for v in o])) + chr(10)).encode())
    c = knx_stack.client.usbhid.Client("10.0.0.9", 5555, state, given(msgs, form))
    check_eq(len(w.written), 0, "nothing is written before the client runs", c)
    check_eq(len(w.tasks), 2, "the client reads and writes", c)
    for i in order:
        asyncio.run(run_task(w, i))
    text = b"".join(w.written).decode()
    check_eq(len(w.lines), 0, "every line received is read", c)
    at = 0
    for f in frames:
        n = 2 * len(f)
        check(len(text) > at + n, "every message is written", c)
        check_eq(list(bytes.fromhex(text[at:at + n])), f, "a message is written as the hexadecimal digits of its frame", c)
        check(text[at + n] == chr(10), "every message is written on a line of its own", c)
        at += n + 1
    check_eq(len(text), at, "nothing else is written", c)
'''


def ctx_usb(tier):
    lines = [(), ("other",), ("switch", "confirm"), ("confirm", "other", "switch")]
    sets = [(), ("switch",), ("temp", "read"), ("read", "switch", "temp")]
    for kinds in (("switch", "same"), ("temp", "read", "same")):
        yield "client", dict(kinds=kinds, incoming_lines=(), order=(0, 1), where=None, nested=0)
    for form in ("tuple", "generator", "iterator"):
        yield "client", dict(kinds=("temp", "read", "switch"), incoming_lines=("switch",), order=(0, 1), where=None, nested=0, form=form)
    for inc in (("prop", "feature", "switch"), ("control", "batch", "switch"), ("feature", "prop", "control", "batch", "empty", "confirm")):
        yield "client", dict(kinds=("switch",), incoming_lines=inc, order=(0, 1), where=None, nested=0)
        yield "client", dict(kinds=("switch",), incoming_lines=inc, order=(1, 0), where="read", nested=2)
    many = ("switch", "temp", "read", "switch", "same", "temp") * (3 if tier == "quick" else 20)
    yield "client", dict(kinds=("read",) * 130, incoming_lines=(), order=(0, 1), where=None, nested=0)
    yield "client", dict(kinds=("read",), incoming_lines=("other", "switch") * (33 if tier == "quick" else 65), order=(0, 1), where=None, nested=0)
    for inc in (lines[-1] * 5, ()):
        yield "client", dict(kinds=many, incoming_lines=inc, order=(0, 1), where=None, nested=0)
        yield "client", dict(kinds=many, incoming_lines=inc, order=(0, 1), where="write", nested=9)
    yield "client", dict(kinds=many, incoming_lines=lines[-1] * 5, order=(1, 0), where="read", nested=9)
    for kinds in sets:
        for inc in lines:
            for order in ((0, 1), (1, 0)):
                yield "client", dict(kinds=kinds, incoming_lines=inc, order=order, where=None, nested=0)
            if tier != "quick" or len(kinds) + len(inc) == 4:
                for k in range(1, len(kinds) + 1):
                    yield "client", dict(kinds=kinds, incoming_lines=inc, order=(0, 1), where="write", nested=k)
                for k in range(1, len(inc) + 2):
                    yield "client", dict(kinds=kinds, incoming_lines=inc, order=(1, 0), where="read", nested=k)


FIND = '''
import asyncio
import knx_stack.client.knxnet_ip_discovery as disc

GROUP = ("224.0.23.12", 3671)
CALLS = []


class Transport:
    def __init__(self):
        self.sent = []

    def sendto(self, data, addr=None):
        self.sent.append((list(data), addr))

    def close(self):
        return None


async def endpoint(factory, local_addr=None, remote_addr=None, sock=None, **more):
    CALLS.append((local_addr, remote_addr, sock))
    return Transport(), factory()


fake("*.create_datagram_endpoint", endpoint)


def sent_one(t, ip, port):
    check_eq(len(t.sent), 1, "one search request is sent", t)
    check_eq(t.sent[0][0], [0x06, 0x10, 0x02, 0x01, 0, 14, 8, 1] + list(ip) + [port >> 8, port & 255],
             "the search request names the endpoint that waits for responses", t)
    check_eq(t.sent[0][1], GROUP, "the search request goes to the discovery multicast endpoint", t)


def request(ip, n):
    port = sym("port", 0, 65535)
    r = disc.Request(".".join([str(x) for x in ip]), port)
    t = Transport()
    r.connection_made(t)
    sent_one(t, ip, port)
    r.datagram_received(bytes([sym("d%d" % i, 0, 255) for i in range(n)]), ("10.0.0.8", 3671))
    r.error_received(OSError("unreachable"))
    r.connection_lost(None)
    check_eq(len(t.sent), 1, "what is received is not answered", r)


def listen(n):
    l = disc.Listen()
    t = Transport()
    l.connection_made(t)
    for j in range(n):
        o = [0x06, 0x10, 0x02, 0x02, 0, 68, 8, 1] + [sym("o%d_%d" % (j, i), 0, 255) for i in range(60)]
        try:
            l.datagram_received(bytes(o), ("10.0.0.8", 3671))
            ok = True
        except Exception:
            ok = False
        check(ok, "every search response is accepted", l)
    l.error_received(OSError("unreachable"))
    l.connection_lost(None)
    check_eq(len(t.sent), 0, "a listener sends nothing", l)


def overlook(service, n):
    """a datagram which is none of the stack's responses does no harm"""
    l = disc.Listen()
    t = Transport()
    l.connection_made(t)
    o = [0x06, 0x10, service >> 8, service & 255, 0, 6 + n] + [sym("o%d" % i, 0, 255) for i in range(n)]
    good = [0x06, 0x10, 0x02, 0x02, 0, 68, 8, 1] + [sym("g%d" % i, 0, 255) for i in range(60)]
    for d in (o, good):
        try:
            l.datagram_received(bytes(d), ("10.0.0.8", 3671))
            ok = True
        except Exception:
            ok = False
        check(ok, "every search response is accepted, any other datagram overlooked", l)
    check_eq(len(t.sent), 0, "a listener sends nothing", l)


def opening(ip):
    port = sym("port", 0, 65535)
    text = ".".join([str(x) for x in ip])
    t, r = asyncio.run(disc.send_discovery_request(text, port))
    check(isinstance(r, disc.Request), "a request is opened", r)
    r.connection_made(t)
    sent_one(t, ip, port)
    t, l = asyncio.run(disc.listen_discovery_responses(text, port))
    check(isinstance(l, disc.Listen), "a listener is opened", l)
    check_eq(CALLS[-1][0], (text, port), "the listener waits on the endpoint it is given", l)
'''


def ctx_find(tier):
    ips = ((10, 0, 0, 1), (192, 168, 0, 254), (0, 0, 0, 0), (255, 255, 255, 255))
    for ip in ips:
        yield "opening", dict(ip=ip)
        for n in (0, 1, 14, 68) if tier == "quick" else range(0, 80):
            yield "request", dict(ip=ip, n=n)
    for n in (1, 2, 12) if tier == "quick" else (1, 2, 3, 4, 12, 60):
        yield "listen", dict(n=n)
    for service in (0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x020B, 0x0530, 0x0740) if tier == "quick" else \
            [v for v in range(0x0200, 0x0760) if v not in (0x0202, 0x0206, 0x0208, 0x020A, 0x0420, 0x0421)]:
        yield "overlook", dict(service=service, n=8)


PROPS = [
    Prop("C28", "The tunnelling client answers every datagram as the protocol demands", TRAFFIC, ctx_traffic,
         "over all histories of datagrams up to the bound: one connect request on opening, connection state request after a "
         "successful connect response only, one acknowledge per expected or repeated request and none otherwise",
         anchors=["knx_stack.client.knxnet_ip"]),
    Prop("C29", "The tunnelling client sends every message once, in order, and only when connected", WRITING, ctx_writing,
         "over all schedules of datagrams at the points where the writer waits, up to the bound: no tunnelling request before a "
         "successful connect response, afterwards each message as one standard frame, in order, exactly once",
         anchors=["knx_stack.client.knxnet_ip"]),
    Prop("C34", "The USB client writes every message once, in order, one line of digits each", USB, ctx_usb,
         "over all orders of its two tasks and all nestings of one in a wait of the other: the text written is, in order, the "
         "hexadecimal digits of each message's frame and a line feed; every line received is read",
         anchors=["knx_stack.client.usbhid"]),
    Prop("C35", "The discovery client asks once, from its own endpoint, and accepts every response", FIND, ctx_find,
         "for all ports and the listed addresses: one search request with the caller's endpoint to the multicast endpoint, no "
         "other traffic; every search response is accepted",
         anchors=["knx_stack.client.knxnet_ip_discovery"]),
]
