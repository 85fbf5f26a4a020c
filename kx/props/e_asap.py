import itertools
from kx.core import Prop

ASAPS = '''
T = knx_stack


def equality(na, nb, case):
    a = sym("a", 0, 65535)
    if case == "same":
        b = a
    else:
        b = sym("b", 0, 65535)
        assume(a != b)
    x, y = T.ASAP(a, na), T.ASAP(b, nb)
    check_eq(x.value, a, "the value of an object number is kept", x)
    check_eq(x.name, na, "the name of an object is kept", x)
    if case == "same":
        check(x == y, "objects with the same number are equal whatever their names", x)
        check(not (x != y), "objects with the same number are equal whatever their names", x)
        check(hash(x) == hash(y), "equal objects have equal hashes", x)
        check(x in [y], "an object is found by its number", x)
        check_eq({x: 1}[y], 1, "an object is found by its number in a dictionary", x)
        check_eq(len(set([x, y])), 1, "equal objects count once in a set", x)
    else:
        check(not (x == y), "objects with different numbers differ whatever their names", x)
        check(x != y, "objects with different numbers differ whatever their names", x)
        check(x not in [y], "an object is found by its number only", x)


def free(values, gone):
    at = T.AddressTable(T.Address(0x1001), [], 255)
    table = T.AssociationTable(at)
    for i in range(len(values)):
        table.associate(T.ASAP(values[i]), [gaddr(0x100 + i)])
    for i in gone:
        table.disassociate(T.ASAP(values[i]), [gaddr(0x100 + i)])
    got = table.get_free_asap_value()
    check(got not in [a.value for a in table.asaps], "a free object number is not in use", table)
    check(got >= 0, "a free object number is a natural number", table)
    table.associate(T.ASAP(got), [gaddr(0x1F0)])
    check(table.get_free_asap_value() != got, "a number handed out and used is not handed out again", table)
    check_eq([a.free_style for a in table.get_addresses(table.get_tsaps(T.ASAP(got)))], [0x1F0],
             "an object with a free number has only its own addresses", table)
    for i in range(len(values)):
        if i not in gone:
            check_eq([a.value for a in table.get_asaps_from_address(gaddr(0x100 + i))], [values[i]],
                     "using a free number does not disturb the other objects", table)


def objects(init, ops):
    """the group object table as a dictionary from object number to datapoint type"""
    model = {}
    if init:
        t = T.GroupObjectTable({T.ASAP(a, "n"): getattr(D, d) for a, d in init})
    else:
        t = T.GroupObjectTable()
    for a, d in init:
        model[a] = d
    other = T.GroupObjectTable()
    for op, a, d in ops:
        if op == "assoc":
            t.associate(T.ASAP(a), getattr(D, d))
            model[a] = d
        else:
            t.disassociate(T.ASAP(a, "other name"))
            del model[a]
        got = sorted([(k.value, v.__name__) for k, v in t.associations])
        check_eq(got, sorted(model.items()), "the group object table is a map from object number to type", t)
    got = sorted([(k.value, v.__name__) for k, v in t.associations])
    check_eq(got, sorted(model.items()), "the group object table is a map from object number to type", t)
    check_eq(len(other.associations), 0, "another group object table is not affected", other)
    # the state sees exactly these types
    at = T.AddressTable(T.Address(0x1001), [], 255)
    assoc = T.AssociationTable(at)
    for a in (5, 6):
        assoc.associate(T.ASAP(a), [gaddr(0x123)])
    st = T.State(T.Medium.usb_hid, assoc, t)
    st.ldata = T.layer.L_Data(destination=0x123)
    pairs = st.get_asaps_and_dpts()
    check_eq(sorted([(k.value, v.__name__) for k, v in pairs]), sorted([x for x in model.items() if x[0] in (5, 6)]),
             "the types reported for an address are those of its typed objects", st)
    for a in model:
        st.asap = T.ASAP(a)
        check_eq(st.get_dpt().__name__, model[a], "the type of an object is the one last associated", st)
'''


def ctx_asap(tier):
    for na, nb in ((None, None), (None, "x"), ("x", "y"), ("", "x"), ("x", "x")):
        for case in ("same", "other"):
            yield "equality", dict(na=na, nb=nb, case=case)
    top = 4 if tier == "quick" else 5
    for k in range(top + 1):
        for vals in itertools.permutations(range(1, top + 1), k):
            yield "free", dict(values=vals, gone=())
    for vals in ((1, 2, 3), (5, 1), (3, 2, 1), (255,), (2, 65535)):
        for gone in ((0,), (len(vals) - 1,), tuple(range(len(vals)))):
            yield "free", dict(values=vals, gone=tuple(sorted(set(gone))))
    steps = [("assoc", a, d) for a in (5, 6) for d in ("DPT_Switch", "DPT_Value_Temp")] + [("dis", 5, ""), ("dis", 6, "")]
    for init in ((), ((5, "DPT_Brightness"),), ((6, "DPT_Switch"), (5, "DPT_Alarm"), (7, "DPT_Start"))):
        for ops in itertools.product(steps, repeat=2 if tier == "quick" else 3):
            known = set(a for a, d in init)
            ok = True
            for op, a, d in ops:
                if op == "assoc":
                    known.add(a)
                elif a not in known:
                    ok = False
                    break
                else:
                    known.discard(a)
            if ok:
                yield "objects", dict(init=init, ops=ops)


ADDRS = '''
T = knx_stack
TL = T.address.ThreeLevelStyle
WL = T.address.TwoLevelStyle


def views(g, raw):
    check_eq(g.free_style, raw, "free notation of a group address", g)
    check_eq(g.three_level_style.main, raw >> 11, "three level notation: main group", g)
    check_eq(g.three_level_style.middle, (raw >> 8) & 7, "three level notation: middle group", g)
    check_eq(g.three_level_style.sub, raw & 255, "three level notation: sub group", g)
    check_eq(g.two_level_style.main, raw >> 11, "two level notation: main group", g)
    check_eq(g.two_level_style.sub, raw & 0x7FF, "two level notation: sub group", g)


def notation(how):
    main, mid, sub = sym("main", 0, 31), sym("mid", 0, 7), sym("sub", 0, 255)
    raw = (main << 11) | (mid << 8) | sub
    if how == "free":
        g = T.GroupAddress(free_style=raw)
    elif how == "positional":
        g = T.GroupAddress(raw)
    elif how == "three":
        g = T.GroupAddress(three_level_style=TL(main=main, middle=mid, sub=sub))
    elif how == "two":
        g = T.GroupAddress(two_level_style=WL(main=main, sub=(mid << 8) | sub))
    elif how == "set three":
        g = T.GroupAddress(free_style=sym("before", 0, 65535))
        g.three_level_style = TL(main=main, middle=mid, sub=sub)
    elif how == "set two":
        g = T.GroupAddress(free_style=sym("before", 0, 65535))
        g.two_level_style = WL(main=main, sub=(mid << 8) | sub)
    elif how == "set free":
        g = T.GroupAddress(free_style=sym("before", 0, 65535))
        g.free_style = raw
    else:
        before = sym("before", 0, 65535)
        g = T.GroupAddress(free_style=before)
        if how == "main":
            g.three_level_style.main = main
            raw = (main << 11) | (before & 0x7FF)
        elif how == "middle":
            g.three_level_style.middle = mid
            raw = (before & 0xF8FF) | (mid << 8)
        elif how == "sub":
            g.three_level_style.sub = sub
            raw = (before & 0xFF00) | sub
        elif how == "two main":
            g.two_level_style.main = main
            raw = (main << 11) | (before & 0x7FF)
        else:
            g.two_level_style.sub = (mid << 8) | sub
            raw = (before & 0xF800) | (mid << 8) | sub
    views(g, raw)


def same(ka, kb, case):
    def make(kind, raw):
        if kind == "ga":
            return T.GroupAddress(free_style=raw)
        if kind == "three":
            return T.GroupAddress(three_level_style=TL(main=raw >> 11, middle=(raw >> 8) & 7, sub=raw & 255))
        return T.Address(raw)
    a = sym("a", 0, 65535)
    if case == "same":
        b = a
    else:
        b = sym("b", 0, 65535)
        assume(a != b)
    x, y = make(ka, a), make(kb, b)
    if case == "same":
        check(x == y, "addresses with the same sixteen bits are equal in every notation", x)
        check(not (x != y), "addresses with the same sixteen bits are equal in every notation", x)
        check(hash(x) == hash(y), "equal addresses have equal hashes", x)
        check(x in [y], "an address is found by its sixteen bits", x)
        check_eq({x: 7}.get(y), 7, "an address is found by its sixteen bits in a dictionary", x)
    else:
        check(not (x == y), "addresses with different bits differ", x)
        check(x != y, "addresses with different bits differ", x)
        check(x not in [y], "an address is found by its sixteen bits only", x)


def independent(kind):
    """an address made from another one's bits is a value of its own"""
    a, b = sym("a", 0, 65535), sym("b", 0, 65535)
    x = T.GroupAddress(free_style=a)
    t = x.three_level_style
    y = T.GroupAddress(three_level_style=t)
    y.free_style = b
    check_eq(x.free_style, a, "changing one address does not change another", x)
    z = T.Address(a)
    w = T.Address(z.free_style)
    w.free_style = b
    check_eq(z.free_style, a, "changing one address does not change another", z)


def text(kind, raw):
    if kind == "ga":
        m, i, s = raw >> 11, (raw >> 8) & 7, raw & 255
        check_eq(repr(T.GroupAddress(free_style=raw)),
                 "(0x%04X %d/%d %d/%d/%d)" % (raw, m, raw & 0x7FF, m, i, s), "a group address prints all its notations")
    else:
        check_eq(repr(T.Address(raw)), "0x%04X" % raw, "an individual address prints its sixteen bits")
'''


def ctx_addrs(tier):
    for how in ("free", "positional", "three", "two", "set three", "set two", "set free", "main", "middle", "sub",
                "two main", "two sub"):
        yield "notation", dict(how=how)
    for ka in ("ga", "three", "ia"):
        for kb in ("ga", "three", "ia"):
            for case in ("same", "other"):
                yield "same", dict(ka=ka, kb=kb, case=case)
    yield "independent", dict(kind="ga")
    for raw in [1 << i for i in range(16)] + [0, 0xFFFF, 0x1234, 0xABCD, 0x0901]:
        yield "text", dict(kind="ga", raw=raw)
        yield "text", dict(kind="ia", raw=raw)


PROPS = [
    Prop("C21", "Object numbers identify objects; free numbers are free; types are a map", ASAPS, ctx_asap,
         "equality and hash of ASAPs are those of their numbers for all numbers; get_free_asap_value is outside the set in use; "
         "GroupObjectTable equals a dictionary model after every bounded history",
         anchors=["knx_stack.definition.layer.transport.association_table",
                  "knx_stack.definition.layer.application.groupobject_table"]),
    Prop("C22", "The notations of a group address denote the same sixteen bits", ADDRS, ctx_addrs,
         "every notation's field is the prescribed bit range of the sixteen free bits, whichever notation was written",
         anchors=["knx_stack.address"]),
]
