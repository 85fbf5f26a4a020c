import os
from kx.core import Prop

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class CProp(Prop):
    source = "daemon/usbhid.c"

    def session(self, root):
        from cfront.machine import CSession
        env = open(os.path.join(HERE, "cfront", "env.txt"), encoding="utf-8").read()
        return CSession(root, self.spec, env, self.id, self.source)


COMMON = '''
def digits(kind, tag):
    """a hexadecimal digit of one of the three ranges: its character and value"""
    if kind == 0:
        v = sym(tag, 0, 9)
        return 48 + v, v
    v = sym(tag, 10, 15)
    return (87 if kind == 1 else 55) + v, v


def line_of(n, shift, end, tag):
    """2*n digits, their ranges rotating with the position; -> (characters, octets)"""
    text, data = [], []
    for i in range(n):
        k = (i + shift) % 9
        a, x = digits(k // 3, tag + "h%d" % i)
        b, y = digits(k % 3, tag + "l%d" % i)
        text += [a, b]
        data.append(16 * x + y)
    return text + end, data


OTHER = ((0, 47), (58, 64), (71, 96), (103, 127), (128, 255))
ENDS = {"lf": [10], "crlf": [13, 10], "cr": [13], "none": [], "lfcr": [10, 13]}


class Judge:
    """what every batch of events has to lead to"""

    def __init__(self, w):
        self.w = w
        self.fd_of = {}         # client -> descriptor, while connected
        self.seen = 0
        self.n = 0
        self.limit = 64
        self.expected = []      # lines that must be written to the device: octets
        self.packets = []       # texts that must be written to every client
        self.before = []        # clients connected before and after the batch
        self.maybe = []         # clients that came or went during the batch
        self.new = []
        self.quitting = []
        self.running = False

    def hid(self):
        return [fd for fd in self.w.open if self.w.open[fd] == "hid"]

    def begin(self, batch):
        w = self.w
        self.n += 1
        self.running = True
        self.expected, self.packets, self.new, self.quitting = [], [], [], []
        self.before = list(self.fd_of.keys())
        several = len([e for e in batch if e[0] == "line"]) > 1
        for j, e in enumerate(batch):
            tag = "b%de%d" % (self.n, j)
            if e[0] == "conn":
                w.waiting.append((e[1], e[2] if len(e) > 2 else None))
                self.new.append(e[1])
            elif e[0] == "line":
                text, data = line_of(e[2], e[3], ENDS[e[4]], tag)
                if several:
                    text = [48, 48 + j] + text
                    data = [j] + data
                self.feed(e[1], text)
                if data:
                    self.expected.append((data + [0] * 56)[:56])
            elif e[0] == "odd":
                text, data = line_of(e[2], e[3], [], tag)
                self.feed(e[1], text + [48 + sym(tag + "odd", 0, 9)] + ENDS[e[4]])
            elif e[0] == "wrong":
                # a character that is no digit at position e[3]
                text, data = line_of(e[2], e[3], [], tag)
                text[e[3]] = sym(tag + "wrong", OTHER[e[4]][0], OTHER[e[4]][1])
                self.feed(e[1], text + [10])
            elif e[0] == "raw":
                self.feed(e[1], [sym(tag + "c%d" % i, lo, hi) for i, (lo, hi) in enumerate(e[2])])
            elif e[0] == "hid":
                data = []
                text = []
                for i in range(e[1]):
                    k = (i + e[2]) % 4
                    a, x = digits(k // 2, tag + "h%d" % i)
                    b, y = digits(k % 2, tag + "l%d" % i)
                    data.append(16 * x + y)
                    text += [a, b]
                for fd in self.hid():
                    w.pending.setdefault(fd, []).append(data)
                self.packets += text + [10]
            elif e[0] in ("eof", "error"):
                w.pending.setdefault(self.fd_of[e[1]], []).append(None if e[0] == "eof" else "error")
                self.quitting.append(e[1])
            elif e[0] == "gone":
                w.gone.append(self.fd_of[e[1]])

    def feed(self, client, text):
        self.w.pending.setdefault(self.fd_of[client], []).append(text)

    def rest(self):
        w = self.w
        if not self.running:
            return
        for fd in w.pending:
            q = w.pending[fd]
            if q and q[0] is None and w.open[fd] != "hid":
                self.on_left(fd)
            elif q:
                self.on_unread(fd)
        if w.waiting:
            self.on_refused()
        for client, fd in w.accepted:
            if fd in w.open and w.open[fd] == ("client", client):
                self.fd_of[client] = fd
        w.accepted = []
        for client in self.quitting:
            self.on_quit(client, self.fd_of[client])
            del self.fd_of[client]
        stay = [c for c in self.before if c not in self.quitting]
        hid = self.hid()
        wrote = w.wrote[self.seen:]
        self.seen = len(w.wrote)
        self.verdict(hid, stay, wrote)
        self.running = False


def run(batches, fail=(), argv=("daemon",), first=3):
    w = World()
    LIVE.append(w)
    w.next_fd = first
    w.fail = fail
    w.batches = [b for b in batches]
    w.judge = Verdict(w)
    status = None
    try:
        status = c_main(len(argv), c_argv(argv))
        how = "returned"
    except Done:
        how = "waiting"
    except Exit as e:
        how = "exit"
        status = e.args[0]
    except CError as e:
        fail_now(e)
        how = "error"
    return w, how, status
'''

SAFE = COMMON + '''
class Verdict(Judge):
    def on_left(self, fd):
        fail("a connection that ended is closed", fd)

    def on_unread(self, fd):
        fail("what arrives is read", fd)

    def on_refused(self):
        fail("a waiting connection is accepted", self)

    def on_quit(self, client, fd):
        check(fd not in self.w.open or self.w.open[fd] != ("client", client), "a connection that ended is closed", client)

    def verdict(self, hid, stay, wrote):
        check_eq(len(hid), 1, "the device stays open", hid)
        for c in stay:
            check(self.w.open.get(self.fd_of[c]) == ("client", c), "a connection stays open as long as the client wants", c)
        # a connection is either served or closed, never left open and forgotten
        for fd in self.w.open:
            kind = self.w.open[fd]
            check(type(kind) is str or self.fd_of.get(kind[1]) == fd, "no connection is leaked", kind)


def fail_now(e):
    fail("the daemon accesses memory and descriptors as it may", e)


def safe(batches, first=3):
    w, how, status = run(batches, (), ("daemon",), first)
    check(how == "waiting" or how == "error", "the daemon goes on running", how)


def fails(batches, what):
    """a system call fails: the daemon stops with an error, it does not run on"""
    w, how, status = run(batches, what)
    # (a daemon that does without the call goes on)
    check(how == "exit" or how == "error" or w.failed is None and how == "waiting", "the daemon stops when what it needs fails", how)
    check(status != 0 or w.failed is None, "the daemon reports the failure", how)
'''

FORWARD = COMMON + '''
class Verdict(Judge):
    def on_left(self, fd):
        return None

    def on_unread(self, fd):
        fail("what a client or the device sends is read", fd)

    def on_refused(self):
        fail("a waiting connection is accepted", self)

    def on_quit(self, client, fd):
        return None

    def verdict(self, hid, stay, wrote):
        bus = [d for fd, d in wrote if fd in hid]
        check_eq(len(bus), len(self.expected), "one packet is written to the device for each well-formed line, none for others", self)
        for i in range(len(bus)):
            check_eq(len(bus[i]), 56, "a packet of 56 octets is written", self)
            if len(bus) == 1:
                check_eq(bus[i], self.expected[i], "the packet holds the octets of the line, then zeros", self)
            else:
                # lines of different clients have no order; they are told apart by their first octet
                want = [x for x in self.expected if x[0] == bus[i][0]]
                check_eq(len(want), 1, "each line is written once", self)
                check_eq(bus[i], want[0], "the packet holds the octets of the line, then zeros", self)
        for c in stay:
            fd = self.fd_of[c]
            if fd in self.w.gone:
                continue
            got = []
            for f, d in wrote:
                if f == fd:
                    got += d
            check_eq(len(got), len(self.packets), "each packet of the device goes to each client once, as one line", c)
            check_eq(got, self.packets, "the line holds the digits of the packet and a line feed", c)
        served = [self.fd_of[c] for c in stay]
        for f, d in wrote:
            check(f in hid or self.packets != [], "nothing is sent to a client unless the device says something", f)


def fail_now(e):
    fail("the daemon accesses memory and descriptors as it may", e)


def forward(batches, first=3):
    w, how, status = run(batches, (), ("daemon",), first)
    check(how == "waiting" or how == "error", "the daemon goes on running", how)
    check_eq(w.device, "/dev/hidraw1", "the default device is opened", w)
    check_eq(w.port, 5555, "the daemon listens on its port", w)
'''


OPTIONS = COMMON + '''
class Verdict(Judge):
    def verdict(self, hid, stay, wrote):
        return None


def fail_now(e):
    fail("the daemon accesses memory and descriptors as it may", e)


def started(argv, device):
    w, how, status = run((), (), argv)
    check(how == "waiting" or how == "error", "the daemon runs", how)
    check(w.listening, "the daemon listens", w)
    check_eq(w.device, device, "the daemon serves the device its user names", w)


def helped(argv):
    w, how, status = run((), (), argv)
    check(how == "exit" or how == "error", "asked for help, the daemon does not run", how)
    check_eq(status, 0, "asking for help is no failure", how)
    check(w.device is None and not w.open, "asked for help, the daemon touches nothing", w)


def unavailable(argv, device):
    w, how, status = run((), ("open",), argv)
    check(how == "exit" or how == "error", "the daemon stops when its device cannot be opened", how)
    check(status != 0, "the daemon reports the failure", how)
    check_eq(w.device, device, "the daemon serves the device its user names", w)
'''


def conns(n, fd=None):
    return tuple((("conn", i) if fd is None else ("conn", i, fd + i),) for i in range(n))


def ctx_forward(tier):
    quick = tier == "quick"
    lens = list(range(0, 57))
    # one client, one line: every length, every pair of digit ranges at every position
    for n in lens:
        for shift in (0,) if quick and n not in (1, 2, 19, 56) else range(9):
            for end in ("lf",) if quick and n not in (1, 19, 55, 56) else ("lf", "crlf", "cr", "none"):
                if 2 * n + len({"lf": "1", "crlf": "12", "cr": "1", "none": ""}[end]) > 113 and end != "crlf":
                    continue
                if n == 0 and end == "none":
                    continue
                if shift and end != "lf":
                    continue
                yield "forward", dict(batches=conns(1) + ((("line", 0, n, shift, end),),))
    for n in lens:
        if n < 56 and (not quick or n % 5 == 0):
            for end in ("lf", "crlf", "none"):
                yield "forward", dict(batches=conns(1) + ((("odd", 0, n, n, end),),))
    for n in (1, 2, 23, 56) if quick else lens[1:]:
        for pos in sorted({0, 1, n - 1, n, 2 * n - 2, 2 * n - 1}) if quick else range(2 * n):
            if pos < 2 * n:
                for c in range(5) if quick or pos in (0, 1, 2 * n - 1) else (pos % 5,):
                    yield "forward", dict(batches=conns(1) + ((("wrong", 0, n, pos, c),), (("line", 0, 3, 0, "lf"),)))
    # packets of the device: every length, every range of digits
    for n in lens[1:]:
        for shift in (0, 1, 2, 3) if not quick or n in (1, 2, 3, 4, 56) else (n % 4,):
            yield "forward", dict(batches=conns(2) + ((("hid", n, shift),),))
    # histories of several clients
    yield "forward", dict(batches=conns(3) + ((("hid", 19, 0),), (("line", 1, 19, 0, "lf"),), (("eof", 1),), (("hid", 20, 1),),
                                              (("conn", 7),), (("hid", 3, 2),), (("line", 7, 5, 1, "crlf"),)))
    yield "forward", dict(batches=conns(3) + ((("error", 0),), (("hid", 5, 0), ("line", 1, 4, 0, "lf")), (("gone", 1), ("hid", 6, 0)),
                                              (("hid", 7, 0), ("line", 2, 4, 0, "lf"), ("line", 1, 5, 0, "lf"))))
    yield "forward", dict(batches=conns(2) + ((("line", 0, 3, 0, "lf"), ("line", 1, 4, 2, "lf")), (("line", 0, 56, 0, "lf"),),
                                              (("line", 1, 1, 0, "lf"),), (("line", 0, 1, 0, "lf"),)))
    yield "forward", dict(batches=conns(1) + ((("hid", 56, 0), ("hid", 2, 0), ("hid", 56, 3)), (("line", 0, 56, 0, "lf"),), (("hid", 1, 0),)))
    yield "forward", dict(batches=((("conn", 0), ("conn", 1), ("hid", 5, 0)), (("hid", 6, 0),), (("eof", 0), ("eof", 1), ("hid", 7, 0)),
                                   (("hid", 8, 0),), (("conn", 2),), (("hid", 9, 0), ("line", 2, 9, 0, "lf"))))
    # long histories
    m = 20 if quick else 150
    yield "forward", dict(batches=conns(2) + tuple((("line", k % 2, 1 + k % 9, k % 9, "lf"),) for k in range(m)) + ((("hid", 3, 0),),))
    yield "forward", dict(batches=conns(2) + tuple((("hid", 1 + k % 9, k % 4),) for k in range(m)) + ((("line", 1, 3, 0, "lf"),),))
    yield "forward", dict(batches=conns(1) + tuple((("odd", 0, 1 + k % 5, 0, "lf"),) if k % 2 else (("wrong", 0, 3, k % 6, k % 5),)
                                                   for k in range(m)) + ((("line", 0, 3, 0, "lf"),), (("hid", 3, 0),)))
    # (descriptors are used again as POSIX says: the lowest that is free)
    cycle = lambda k: ((("conn", k),), (("line", k, 2, 0, "lf"),), (("hid", 2, 0),), (("eof", k),))
    yield "forward", dict(batches=((("conn", 1000),),) + sum((cycle(k) for k in range(m if not quick else 12)), ())
                          + ((("conn", 1001),), (("hid", 4, 0),), (("line", 1000, 4, 0, "lf"),)))
    # as many clients as there are places, and one more
    for n in (66,) if quick else (64, 66):
        yield "forward", dict(batches=conns(n) + ((("hid", 4, 0),), (("line", 63, 4, 0, "lf"),), (("eof", 5),), (("conn", 99),),
                                                  (("hid", 5, 0),), (("line", 99, 4, 0, "lf"),)))
    for fd in (64, 500, 1020, 1022, 1023):
        yield "forward", dict(batches=conns(2, fd) + ((("hid", 4, 0),), (("line", 0, 4, 0, "lf"),)))


def ctx_safe(tier):
    quick = tier == "quick"
    # every number of octets a read can give, line ends at every place that matters
    ANY = ((48, 57),)
    for n in range(1, 114):
        if quick and 3 < n < 110 and n % 25:
            continue
        for tail in ((), (10,), (13,), (13, 10), (10, 10), (10, 13), (0,)):
            if len(tail) <= n:
                chars = ANY * (n - len(tail)) + tuple((t, t) for t in tail)
                yield "safe", dict(batches=conns(1) + ((("raw", 0, chars),),))
        for c in ((0, 9), (11, 12), (14, 47), (58, 64), (71, 96), (103, 127), (128, 255)):
            yield "safe", dict(batches=conns(1) + ((("raw", 0, ANY * (n - 1) + (c,)),),))
            if n > 1:
                yield "safe", dict(batches=conns(1) + ((("raw", 0, (c,) + ANY * (n - 1)),),))
    for n in (114, 115, 150, 226, 227, 300, 1000):
        yield "safe", dict(batches=conns(1) + ((("raw", 0, ANY * n),), (("raw", 0, ANY * n + ((10, 10),)),)))
    for n in range(0, 57):
        if n:
            yield "safe", dict(batches=conns(2) + ((("hid", n, 0),),))
    # connections come and go
    yield "safe", dict(batches=conns(3) + ((("eof", 1),), (("error", 0),), (("hid", 5, 0),), (("conn", 5), ("eof", 2)), (("hid", 5, 0),),
                                           (("eof", 5),), (("hid", 7, 1),)))
    yield "safe", dict(batches=conns(2) + ((("gone", 0), ("hid", 5, 0)), (("line", 0, 3, 0, "lf"),), (("eof", 0), ("hid", 5, 0)), (("hid", 6, 0),)))
    for n in (63, 66) if quick else (63, 64, 65, 70):
        ends = tuple((("eof", i),) for i in range(0, min(n, 64), 7))
        yield "safe", dict(batches=conns(n) + ends + ((("hid", 9, 0),),) + tuple((("conn", 100 + i),) for i in range(12)) + ((("hid", 8, 0),),))
    for fd in (1019, 1021, 1022, 1023, 1024, 1025, 2000):
        yield "safe", dict(batches=conns(4, fd) + ((("hid", 9, 0),),))
    m = 70 if quick else 200
    yield "safe", dict(batches=sum((((("conn", k),), (("eof", k) if k % 2 else ("error", k),)) for k in range(m)), ()) + ((("conn", 999),), (("hid", 5, 0),)))
    yield "safe", dict(batches=conns(1) + tuple((("hid", 1 + k % 56, 0),) if k % 2 else (("line", 0, 1 + k % 50, 0, "lf"),) for k in range(m)))
    for first in (3, 10, 900):
        yield "safe", dict(batches=conns(2) + ((("hid", 9, 0),), (("line", 0, 3, 0, "lf"),)), first=first)
    for what in ("socket", "setsockopt", "bind", "listen", "open", "malloc", "select"):
        yield "fails", dict(batches=(), what=(what,))
    yield "fails", dict(batches=conns(1), what=("accept",))
    yield "fails", dict(batches=conns(1) + ((("line", 0, 3, 0, "lf"),),), what=("write",))


def ctx_options(tier):
    yield "started", dict(argv=("daemon",), device="/dev/hidraw1")
    for dev in ("/dev/hidraw0", "/dev/hidraw2", "/dev/usb/hiddev12", "/d", "x" * 300):
        for argv in (("-d", dev), ("-d" + dev,), ("--dev-hidraw", dev), ("--dev-hidraw=" + dev,), ("-d", "/dev/no", "--dev-hidraw", dev)):
            yield "started", dict(argv=("daemon",) + argv, device=dev)
            yield "unavailable", dict(argv=("daemon",) + argv, device=dev)
    for argv in (("-h",), ("--help",), ("-d", "/dev/hidraw3", "-h"), ("--help", "-d", "/dev/hidraw3")):
        yield "helped", dict(argv=("daemon",) + argv)


PROPS = [
    CProp("C30", "The USB daemon never touches memory or descriptors it may not, whatever is sent to it", SAFE, ctx_safe,
          "for every number of octets received, every end of line, every class of wrong character, every device packet and all the "
          "histories of connections listed: each access lies inside a live, initialised object; each descriptor used is open; ended "
          "connections are closed, none is leaked; the daemon keeps running",
          anchors=["daemon/usbhid.c"]),
    CProp("C31", "The USB daemon forwards every line to the bus and every bus packet to every client, exactly", FORWARD, ctx_forward,
          "for all digits of every range at every position, all lengths and all listed histories: one zero-padded 56 octet packet per "
          "well-formed line, none for a malformed one; each device packet once to each connected client as one line of its digits",
          anchors=["daemon/usbhid.c"]),
    CProp("C37", "The USB daemon serves the device named on its command line", OPTIONS, ctx_options,
          "for the short and long forms of the documented options: the device opened is the one named, the default without; help "
          "opens nothing; a device that cannot be opened is a reported failure",
          anchors=["daemon/usbhid.c"]),
]
