"""ctypes structures, unions and bit fields (CPython 3.12, GCC layout)."""
from . import ints as I
from .values import *  # noqa
from . import m_num as N

SIMPLE = {  # name: (size, signed, kind)
    "c_uint8": (1, False, "i"), "c_int8": (1, True, "i"), "c_uint16": (2, False, "i"),
    "c_int16": (2, True, "i"), "c_uint32": (4, False, "i"), "c_int32": (4, True, "i"),
    "c_uint64": (8, False, "i"), "c_int64": (8, True, "i"), "c_float": (4, True, "f"),
    "c_double": (8, True, "d"), "c_bool": (1, False, "b"), "c_char": (1, False, "c"),
}
ALIASES = {"c_ubyte": "c_uint8", "c_byte": "c_int8", "c_ushort": "c_uint16", "c_short": "c_int16",
           "c_uint": "c_uint32", "c_int": "c_int32", "c_ulong": "c_uint64", "c_long": "c_int64",
           "c_ulonglong": "c_uint64", "c_longlong": "c_int64", "c_size_t": "c_uint64",
           "c_ssize_t": "c_int64"}


class Layout:
    def __init__(self):
        self.size, self.align, self.fields, self.union, self.big = 0, 1, [], False, False


def simple_of(cls):
    for c in cls.mro:
        if c.native in SIMPLE:
            return c.native
    return None


def layout_of(cls):
    for c in cls.mro:
        if c.layout is not None:
            return c.layout
    return None


def sizeof(it, cls):
    s = simple_of(cls)
    if s:
        return SIMPLE[s][0]
    l = layout_of(cls)
    return l.size if l else None


def build(it, cls, fields, pack):
    """compute the layout of a Structure/Union subclass declaring _fields_"""
    union = it.M.T["Union"] in cls.mro
    big = any(c.native in ("BigEndianStructure", "BigEndianUnion") for c in cls.mro)
    lay = Layout()
    lay.union, lay.big = union, big
    base = None
    for c in cls.mro[1:]:
        if c.layout is not None:
            base = c.layout
            break
    size = offset = 0
    align = 1
    usize = 0
    if base is not None:
        size = offset = base.size
        align = base.align
        usize = base.size
        lay.fields.extend(base.fields)
    field_size = bitofs = 0
    out = []
    for t in fields:
        items = it.seq_items(t)
        if items is None or len(items) not in (2, 3) or type(items[0]) is not str or type(items[1]) is not ClassV:
            it.throw("TypeError", "_fields_ must be a sequence of (name, C type) pairs")
        name, ft = items[0], items[1]
        bitsize = items[2] if len(items) == 3 else None
        fl = layout_of(ft)
        sm = simple_of(ft)
        if sm is None and fl is None:
            it.throw("TypeError", "second item in _fields_ tuple must be a C type")
        fsz = SIMPLE[sm][0] if sm else fl.size
        fal = SIMPLE[sm][0] if sm else fl.align
        if bitsize is not None:
            if type(bitsize) is not int or sm is None or SIMPLE[sm][2] != "i" or \
                    not 0 < bitsize <= fsz * 8:
                it.throw("ValueError", "number of bits invalid for bit field")
        if union:
            size = offset = 0
        if bitsize and field_size and fsz * 8 <= field_size and bitofs + bitsize <= field_size:
            kind = "cont"
        elif bitsize and field_size and fsz * 8 >= field_size and bitofs + bitsize <= fsz * 8:
            kind = "expand"
        elif bitsize:
            kind = "new"
            bitofs = 0
            field_size = fsz * 8
        else:
            kind = "no"
            bitofs = 0
            field_size = 0
        if kind in ("new", "no"):
            a = min(pack, fal) if pack else fal
            if a and offset % a:
                d = a - offset % a
                size += d
                offset += d
            size += fsz
            f = CField(name, ft, offset, fsz, None, None, big)
            if bitsize:
                f.bitsize = bitsize
                f.bitoff = field_size - bitofs - bitsize if big else bitofs
                bitofs = bitsize
            offset += fsz
            align = max(align, a)
        elif kind == "expand":
            offset += fsz - field_size // 8
            size += fsz - field_size // 8
            field_size = fsz * 8
            f = CField(name, ft, offset - fsz, fsz,
                       field_size - bitofs - bitsize if big else bitofs, bitsize, big)
            bitofs += bitsize
        else:
            f = CField(name, ft, offset - fsz, fsz,
                       field_size - bitofs - bitsize if big else bitofs, bitsize, big)
            bitofs += bitsize
        usize = max(usize, size)
        out.append(f)
    if union:
        size = usize
    if align and size % align:
        size += align - size % align
    lay.size, lay.align = size, align
    lay.fields.extend(out)
    cls.layout = lay
    ns = it.w(Ref(cls.ns))
    for f in out:
        ns.d[f.name] = f
    return lay


def new_buf(it, nbytes, bits=None):
    return it.alloc(O("buf", None, None, list(bits) if bits is not None else [0] * (8 * nbytes)))


def ct_alloc(it, cls):
    lay = layout_of(cls)
    n = lay.size if lay is not None else 0
    b = new_buf(it, n)
    return it.alloc(O("ct", cls, {}, None, (b.id, 0)))


def _span(bits, off, size, big):
    out = bits[8 * off:8 * (off + size)]
    if big:
        bys = [out[8 * i:8 * i + 8] for i in range(size)]
        out = [b for by in reversed(bys) for b in by]
    return out


def ct_read(it, v, f):
    def one(r):
        bufid, off = it.o(r).x
        ft = f.ftype
        sm = ft.native if ft.native in SIMPLE else None
        if sm is None:
            return it.alloc(O("ct", ft, {}, None, (bufid, off + f.off)))

        def rd(b):
            bits = _span(it.o(b).items, off + f.off, f.size, f.big)
            size, signed, kind = SIMPLE[sm]
            if kind == "f":
                return N.f32_value(bits)
            if kind == "d":
                n = I.from_bits(bits)
                if type(n) is int:
                    import struct
                    return struct.unpack("<d", struct.pack("<Q", n))[0]
                return N.opfloat("f64", str(n))
            if f.bitsize is not None:
                bits = bits[f.bitoff:f.bitoff + f.bitsize]
            n = I.from_bits(bits, signed)
            n = I.subst(n, it.st.facts)
            if kind == "b":
                return it.truth(n)
            if kind == "c":
                return it.M.mkbytes([n])
            return n
        return it.over(Ref(bufid), rd)
    return it.over(v, one)


def ct_write(it, v, f, val):
    def one(p):
        r, val = p
        bufid, off = it.o(r).x
        ft = f.ftype
        sm = simple_of(ft)
        if sm is None:
            return write_struct(it, bufid, off + f.off, ft, val, f)
        size, signed, kind = SIMPLE[sm]
        if type(val) is Unknown:
            it.imprecise("unknown value stored in C field")
            return None
        if type(val) is Ref and it.o(val).kind == "ct" and simple_of(it.o(val).cls) == sm:
            val = it.getattr(val, "value")
            if type(val) is VSet:
                return it.over(val, lambda x: put(it, bufid, off, f, x, sm))
        return put(it, bufid, off, f, val, sm)
    it.over_all([v, val], one)


def put(it, bufid, off, f, val, sm):
    size, signed, kind = SIMPLE[sm]
    if kind == "f":
        if not it.is_intlike(val) and type(val) not in (float, SFloat, SDec):
            return it.throw("TypeError", "must be real number, not %s" % it.typeof(val).name)
        if type(val) is SDec:
            return it.imprecise("Decimal stored in C field")
        bits = N.f32_bits(it, val)
    elif kind == "d":
        if it.is_intlike(val):
            val = N.tofl(it, val)
        if type(val) is not float:
            bits = I.bits_of(I.op("f64enc", (str(val),), 0, (1 << 64) - 1), 64)
        else:
            import struct
            bits = I.bits_of(struct.unpack("<Q", struct.pack("<d", val))[0], 64)
    elif kind == "b":
        bits = I.bits_of(it.intval(it.truth(val)), 8)
    elif kind == "c":
        items = it.seq_items(val)
        if items is None or len(items) != 1:
            return it.throw("TypeError", "one character bytes, bytearray or integer expected")
        bits = I.bits_of(items[0], 8, it.st.facts)
    else:
        if not it.is_intlike(val):
            return it.throw("TypeError", "int expected instead of %s instance" % it.typeof(val).name)
        val = it.intval(val)
        n = f.bitsize if f.bitsize is not None else 8 * size
        bits = I.bits_of(val, n, it.st.facts)

    def wr(b):
        o = it.w(b)
        base = off + f.off
        cur = _span(o.items, base, size, f.big)
        if f.bitsize is not None:
            cur[f.bitoff:f.bitoff + f.bitsize] = bits
        else:
            cur = list(bits)
        if f.big:
            bys = [cur[8 * i:8 * i + 8] for i in range(size)]
            cur = [x for by in reversed(bys) for x in by]
        o.items[8 * base:8 * (base + size)] = cur
        it.wrote(b.id)
    it.over(Ref(bufid), wr)
    return None


def write_struct(it, bufid, off, ft, val, f):
    lay = layout_of(ft)
    if type(val) is tuple:
        tmp = it.instantiate(ft, list(val), {})
        val = tmp
    if type(val) is not Ref or it.o(val).kind != "ct" or not it.o(val).cls.issub(ft):
        return it.throw("TypeError", "expected %s instance, got %s" % (ft.name, it.typeof(val).name))
    sb, so = it.o(val).x

    def cp(p):
        a, b = p
        src = it.o(a).items[8 * so:8 * (so + lay.size)]
        it.w(b).items[8 * off:8 * (off + lay.size)] = src
    it.over_all([Ref(sb), Ref(bufid)], cp)
    return None


def ct_init(it, args, kw):
    v, rest = args[0], args[1:]
    cls = it.o(v).cls
    lay = layout_of(cls)
    fields = lay.fields if lay else []
    if len(rest) > len(fields):
        return it.throw("TypeError", "too many initializers")
    done = set()
    for f, x in zip(fields, rest):
        it.setattr(v, f.name, x)
        done.add(f.name)
    for k, x in kw.items():
        if k in done:
            return it.throw("TypeError", "duplicate values for field '%s'" % k)
        it.setattr(v, k, x)
    return None


def simple_init(it, args, kw):
    v = args[0]
    if len(args) > 1:
        it.setattr(v, "value", args[1])
    return None


def ct_bytes(it, v):
    cls = it.o(v).cls
    n = sizeof(it, cls)
    bufid, off = it.o(v).x

    def rd(b):
        bits = it.o(b).items[8 * off:8 * (off + n)]
        return it.M.mkbytes([I.from_bits(bits[8 * i:8 * i + 8]) for i in range(n)])
    return it.over(Ref(bufid), rd)


def from_buffer_copy(it, args, kw):
    cls, data = args[0], args[1]
    n = sizeof(it, cls)
    off = args[2] if len(args) > 2 else kw.get("offset", 0)
    items = it.seq_items(data)
    if items is None:
        return it.throw("TypeError", "a bytes-like object is required")
    items = items[off:]
    if len(items) < n:
        return it.throw("ValueError", "Buffer size too small")
    bits = []
    for x in items[:n]:
        bits += I.bits_of(it.intval(x), 8, it.st.facts)
    b = new_buf(it, n, bits)
    return it.alloc(O("ct", cls, {}, None, (b.id, 0)))
