import itertools
from kx.core import Prop

MSG = '''
T = knx_stack


def cls_of(kind):
    if kind == "ip":
        return T.knxnet_ip.Msg
    if kind == "usb":
        return T.usb_hid.Msg
    return T.Msg


def consume(kind, n, what):
    """taking one, two or four octets off the front of a message"""
    cls = cls_of(kind)
    vals = [sym("o%d" % i, 0, 255) for i in range(n)]
    m = cls([T.Octect(value=v) for v in vals])
    size = {"octect": 1, "short": 2, "long": 4}[what]
    if n < size:
        try:
            getattr(m, what)()
            refused = False
        except Exception:
            refused = True
        check(refused, "a message with too few octets is refused", m)
        check_eq(octets(m), vals, "consuming does not change the message", m)
        return
    head, body = getattr(m, what)()
    want = 0
    for i in range(size):
        want = (want << 8) | vals[i]
    check_eq(head.value, want, "the octets taken off the front are the first ones, most significant first", head)
    check_eq(octets(body), vals[size:], "the body is what follows", body)
    check(type(body) is cls, "the body is a message of the same kind", body)
    check_eq(octets(m), vals, "consuming does not change the message", m)
    body.append(T.Octect(value=0))
    check_eq(len(m), n, "the body is a message of its own", m)
    if what != "octect":
        check_eq([o.value for o in head.octects], vals[:size], "the octets of a word are in order", head)
    again, rest = getattr(m, what)()
    check_eq(again.value, want, "consuming is repeatable", again)


def chain(n, steps):
    """consuming step by step takes every octet exactly once, in order"""
    vals = [sym("o%d" % i, 0, 255) for i in range(n)]
    rest = frame(vals)
    at = 0
    for what in steps:
        size = {"octect": 1, "short": 2, "long": 4}[what]
        head, rest = getattr(rest, what)()
        want = 0
        for i in range(size):
            want = (want << 8) | vals[at + i]
        check_eq(head.value, want, "each step takes the next octets", head)
        at += size
    check_eq(octets(rest), vals[at:], "the remainder after some steps", rest)


def text(kind, n):
    """printing as hexadecimal digits and reading them back"""
    cls = cls_of(kind)
    vals = [sym("o%d" % i, 0, 255) for i in range(n)]
    m = cls([T.Octect(value=v) for v in vals])
    s = repr(m)
    check_eq(len(s), 2 * n, "two digits are printed for every octet", m)
    back = cls.make_from_str(s)
    check(type(back) is cls, "a message read from digits has the class asked for", back)
    check_eq(octets(back), vals, "a message read from its printed digits has the same octets", back)
    check_eq([o.value for o in cls.stringtooctects(s)], vals, "octets read from printed digits", back)


def digits(s, values):
    m = T.Msg.make_from_str(s)
    check_eq(octets(m), list(values), "hexadecimal digits of either case are read", m)
    check_eq(repr(m), s.upper(), "digits are printed in upper case", m)


def refuse(s):
    try:
        T.Msg.make_from_str(s)
        refused = False
    except Exception:
        refused = True
    check(refused, "text that is not hexadecimal digits is refused")


def words(kind):
    """the views of octets, shorts and longs"""
    if kind == "octet":
        v, hi, lo = sym("v", 0, 255), sym("hi", 0, 15), sym("lo", 0, 15)
        o = T.Octect(value=v)
        check_eq(o.nibble.high, v >> 4, "the high nibble of an octet", o)
        check_eq(o.nibble.low, v & 15, "the low nibble of an octet", o)
        o.nibble.high = hi
        check_eq(o.value, (hi << 4) | (v & 15), "writing a nibble keeps the other", o)
        check_eq(T.Octect(T.Nibbles(high=hi, low=lo)).value, (hi << 4) | lo, "an octet made of nibbles", o)
    elif kind == "short":
        v, a, b = sym("v", 0, 65535), sym("a", 0, 255), sym("b", 0, 255)
        s = T.Short(value=v)
        check_eq(s.MSB.value, v >> 8, "the octets of a short", s)
        check_eq(s.LSB.value, v & 255, "the octets of a short", s)
        check_eq(octets(s.octects), [v >> 8, v & 255], "the octets of a short, most significant first", s)
        s.byte.MSB = a
        check_eq(s.value, (a << 8) | (v & 255), "writing an octet of a short keeps the other", s)
        s.byte.LSB = b
        check_eq(s.value, (a << 8) | b, "writing an octet of a short keeps the other", s)
        m = s.MSB
        m.value = 0
        check_eq(s.value, (a << 8) | b, "an octet taken from a short is its own", s)
    else:
        v = sym("v", 0, 2 ** 32 - 1)
        w = T.Long(value=v)
        want = [v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255]
        check_eq([w.B4.value, w.B3.value, w.B2.value, w.B1.value], want, "the octets of a long", w)
        check_eq(octets(w.octects), want, "the octets of a long, most significant first", w)
        x = T.Long()
        x.byte.B4, x.byte.B3, x.byte.B2, x.byte.B1 = want
        check_eq(x.value, v, "a long written octet by octet", x)
'''


def ctx_msg(tier):
    top = 6 if tier == "quick" else 16
    for kind in ("plain", "ip", "usb"):
        for n in (*range(top + 1), 33, 64, 255):
            for what in ("octect", "short", "long"):
                yield "consume", dict(kind=kind, n=n, what=what)
            yield "text", dict(kind=kind, n=n)
    for steps in itertools.product(("octect", "short", "long"), repeat=3):
        yield "chain", dict(n=13, steps=steps)
    for s, v in (("00", (0,)), ("fF09", (255, 9)), ("abcdef", (0xAB, 0xCD, 0xEF)), ("112203AA", (0x11, 0x22, 3, 0xAA)), ("", ())):
        yield "digits", dict(s=s, values=v)
    for s in ("0g", "zz", "1 ", "-1"):
        yield "refuse", dict(s=s)
    for kind in ("octet", "short", "long"):
        yield "words", dict(kind=kind)


PROPS = [
    Prop("C26", "Messages are consumed octet by octet without loss and survive printing", MSG, ctx_msg,
         "for all octets: the head is the big-endian number of the first octets, the body the rest, the message itself unchanged; "
         "reading the printed digits gives the same octets",
         anchors=["knx_stack.msg"]),
]
