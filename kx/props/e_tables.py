import itertools
from kx.core import Prop

ADDR = '''
AT = knx_stack.AddressTable


def verify(table, raws, model, ia, size, absent):
    got = table.addresses
    check_eq(len(got), len(model), "the table holds exactly the addresses added and not removed", table)
    check(len(got) <= size, "the table never exceeds its maximum size", table)
    for i in range(len(model)):
        check_eq(got[i].free_style, raws[model[i]], "group addresses are in ascending order, each once", table)
        check_eq(table.get_tsap(gaddr(raws[model[i]])), i + 1, "the TSAP of an address is its position", table)
        check_eq(table.get_tsap(knx_stack.Address(raws[model[i]])), i + 1, "the TSAP of an address is its position", table)
        check_eq(table.get_address(i + 1).free_style, raws[model[i]], "the address of a TSAP is the one at its position", table)
    check_eq(list(table.tsaps), list(range(len(model) + 1)), "the TSAPs are 0 to the number of addresses", table)
    check_eq(table.get_address(0).free_style, ia, "TSAP 0 is the individual address", table)
    check_eq(table.individual_address.free_style, ia, "the individual address is kept", table)
    check_eq(table.max_size, size, "the maximum size is kept", table)
    for i in absent:
        if i not in model:
            check(table.get_tsap(gaddr(raws[i])) is None, "an address not in the table has no TSAP", table)
    try:
        table.get_address(len(model) + 1)
        missing = False
    except IndexError:
        missing = True
    check(missing, "a TSAP beyond the table is refused", table)


def run(n, ops, size, init, iacase):
    raws = groups(n + 1)
    if iacase == "equal":
        ia = raws[n]
    else:
        ia = sym("ia", 0, 65535)
        assume(ia != raws[n])
        for i in range(n):
            assume(ia != raws[i])
    model = []
    for i in init:
        if i not in model:
            model.append(i)
    model.sort()
    if len(model) > size:
        try:
            AT(knx_stack.Address(ia), [gaddr(raws[i]) for i in init], size)
            refused = False
        except Exception:
            refused = True
        check(refused, "creating a table with more addresses than its maximum size is refused")
        return
    table = AT(knx_stack.Address(ia), [gaddr(raws[i]) for i in init], size)
    bystander = AT(knx_stack.Address(ia), [gaddr(raws[0])], 255)
    absent = list(range(n)) if iacase == "equal" else list(range(n + 1))
    verify(table, raws, model, ia, size, absent)
    for op, i in ops:
        raised = False
        if op == "add":
            try:
                table.add(gaddr(raws[i]))
            except Exception:
                raised = True
            if i not in model and len(model) >= size:
                check(raised, "adding to a full table is refused", table)
            else:
                check(not raised, "adding to a table with room, or an address already present, is accepted", table)
                if i not in model:
                    model.append(i)
                    model.sort()
        elif op == "remove":
            try:
                table.remove(gaddr(raws[i]))
            except Exception:
                raised = True
            if i in model:
                check(not raised, "removing an address of the table is accepted", table)
                model.remove(i)
        else:
            ia = sym("new_ia", 0, 65535)
            for j in range(n + 1):
                assume(ia != raws[j])
            absent = list(range(n + 1))
            table.individual_address = knx_stack.Address(ia)
        verify(table, raws, model, ia, size, absent)
    check_eq([a.free_style for a in bystander.addresses], [raws[0]], "another table is not affected", bystander)


def full(count, lo):
    """a table made from many addresses at once, as many as it may hold"""
    raws = [lo + 3 * i for i in range(count)]
    table = AT(knx_stack.Address(2), [gaddr(r) for r in raws], count)
    at_ends = [1, 2] + [t for t in (15, 16, 17, 31, 32, 63, 64, 127, 128, 200, 254, 255, 256, 257, 300) if t < count - 1] + [count - 1, count]
    check_eq(len(table.addresses), count, "the table holds exactly the addresses added and not removed", table)
    check_eq(len(table.tsaps), count + 1, "one TSAP per address, beside that of the individual address", table)
    for t in at_ends:
        check_eq(table.addresses[t - 1].free_style, raws[t - 1], "group addresses are in ascending order, each once", table)
        check_eq(table.get_address(t).free_style, raws[t - 1], "the address of a TSAP", table)
        check_eq(table.get_tsap(gaddr(raws[t - 1])), t, "the TSAP of an address", table)
    try:
        table.add(gaddr(1))
        raised = False
    except Exception:
        raised = True
    check(raised, "an address is refused exactly when the table is full", table)
    table.remove(gaddr(raws[0]))
    check_eq(table.get_tsap(gaddr(raws[count - 1])), count - 1, "the TSAP of an address", table)
    check_eq(table.get_address(count - 1).free_style, raws[count - 1], "the address of a TSAP", table)


def big(count, size, lo, step):
    """a large table filled and emptied in scattered orders (step is coprime to count)"""
    raws = [lo + 3 * i for i in range(count)]
    ia = 2
    table = AT(knx_stack.Address(ia), [], size)
    model = []
    for k in range(count):
        i = (k * step) % count
        try:
            table.add(gaddr(raws[i]))
            raised = False
        except Exception:
            raised = True
        check_eq(raised, len(model) >= size, "an address is refused exactly when the table is full", table)
        if not raised:
            model.append(i)
            check_eq(len(table.addresses), len(model), "the table holds exactly the addresses added and not removed", table)
            table.add(gaddr(raws[i]))
            check_eq(len(table.addresses), len(model), "group addresses are in ascending order, each once", table)
    model.sort()
    verify(table, raws, model, ia, size, [i for i in range(count) if i % 7 == 0])
    for k in range(len(model) // 2):
        i = model[(k * step) % len(model)]
        table.remove(gaddr(raws[i]))
        model.remove(i)
        check_eq(len(table.addresses), len(model), "the table holds exactly the addresses added and not removed", table)
    verify(table, raws, model, ia, size, [i for i in range(count) if i % 7 == 0])
'''


def ctx_addr(tier):
    quick = tier == "quick"
    n = 3
    for init in ((), (1,), (2, 0), (1, 0, 2), (0, 0), (2, 1, 2)):
        for size in (0, 1, 2, 3, 255):
            yield "run", dict(n=n, ops=(), size=size, init=init, iacase="other")
    yield "run", dict(n=n, ops=(), size=255, init=(2, 0), iacase="equal")
    steps = [("add", i) for i in range(n)] + [("remove", i) for i in range(n)]
    for ops in itertools.product(steps, repeat=3 if quick else 4):
        for size in (1, 2, 255):
            yield "run", dict(n=n, ops=ops, size=size, init=(1,), iacase="other")
    for ops in itertools.permutations([("add", i) for i in range(4)], 4):
        yield "run", dict(n=4, ops=ops, size=3, init=(), iacase="other")
    yield "run", dict(n=n, ops=(("add", 2), ("ia", 0), ("add", 0), ("remove", 2)), size=255, init=(1,), iacase="other")
    for p in ((0, 1, 2, 3, 4, 5, 6, 7, 8), (8, 0, 7, 1, 6, 2, 5, 3, 4)):
        yield "run", dict(n=9, ops=tuple(("add", i) for i in p) + (("remove", 4), ("add", 4), ("remove", 0), ("remove", 8)),
                          size=255, init=(), iacase="other")
    for count, size, lo, step in ((20, 255, 0x100, 7), (40, 33, 3, 11), (40, 20, 0x7F0, 39)):
        yield "big", dict(count=count, size=size, lo=lo, step=step)
    for count in (16, 255) if quick else (16, 64, 128, 255, 256, 257, 300):
        yield "full", dict(count=count, lo=0x7F0)
    if not quick:
        yield "big", dict(count=300, size=280, lo=0x100, step=7)
        yield "big", dict(count=130, size=128, lo=0x7F0, step=129)
        steps2 = [("add", i) for i in range(2)] + [("remove", i) for i in range(2)]
        for ops in itertools.product(steps2, repeat=5):
            yield "run", dict(n=2, ops=ops, size=1, init=(), iacase="other")
        for p in itertools.permutations(range(5)):
            yield "run", dict(n=5, ops=tuple(("add", i) for i in p), size=255, init=(), iacase="other")


ASSOC = '''
T = knx_stack


def verify(at, table, raws, ia, rows, order, n):
    """rows: asap value -> list of address indices in association order"""
    used = []
    for asap in order:
        for i in rows[asap]:
            if i not in used:
                used.append(i)
    used.sort()
    check_eq(len(at.addresses), len(used), "the address table holds exactly the associated addresses", table)
    for k in range(len(used)):
        check_eq(at.addresses[k].free_style, raws[used[k]], "the address table holds exactly the associated addresses", table)
        check_eq(table.get_tsap(gaddr(raws[used[k]])), k + 1, "the TSAP of an associated address", table)
    for asap in order:
        tsaps = table.get_tsaps(T.ASAP(asap))
        check_eq(list(tsaps), [used.index(i) + 1 for i in rows[asap]],
                 "the TSAPs of an object are its addresses in association order", table)
        got = table.get_addresses(tsaps)
        check_eq([a.free_style for a in got], [raws[i] for i in rows[asap]],
                 "the addresses of an object are those associated, in order", table)
    for i in range(n):
        got = sorted([a.value for a in table.get_asaps_from_address(gaddr(raws[i]))])
        check_eq(got, sorted([asap for asap in order if i in rows[asap]]),
                 "the objects of an address are those it is associated with, each once", table)
        got = sorted([a.value for a in table.get_asaps(table.get_tsap(gaddr(raws[i])))])
        check_eq(got, sorted([asap for asap in order if i in rows[asap]]),
                 "the objects of a TSAP are those of its address", table)
    check_eq([a.free_style for a in table.get_addresses([0])], [ia], "TSAP 0 is the individual address", table)
    check_eq([a.value for a in table.get_asaps_from_address(knx_stack.Address(ia))], [0],
             "the individual address belongs to object 0", table)
    check_eq(table.individual_address.free_style, ia, "the individual address is kept", table)
    for asap in order:
        check(T.ASAP(asap, "x") in table.asaps, "an object that was associated is known", table)


def run(n, init, ops):
    raws = groups(n)
    ia = sym("ia", 0, 65535)
    for r in raws:
        assume(ia != r)
    at = T.AddressTable(T.Address(ia), [], 255)
    rows, order = {}, []
    for asap, i in init:
        if asap not in order:
            order.append(asap)
            rows[asap] = []
        if i not in rows[asap]:
            rows[asap].append(i)
    if init:
        table = T.AssociationTable(at, [T.Association(asap=T.ASAP(asap), address=gaddr(raws[i])) for asap, i in init])
    else:
        table = T.AssociationTable(at)
    other = T.AssociationTable(T.AddressTable(T.Address(ia), [], 255))
    verify(at, table, raws, ia, rows, order, n)
    for op, asap, idxs in ops:
        if op == "assoc":
            table.associate(T.ASAP(asap, "named"), [gaddr(raws[i]) for i in idxs])
            if asap not in order:
                order.append(asap)
                rows[asap] = []
            for i in idxs:
                if i not in rows[asap]:
                    rows[asap].append(i)
        else:
            table.disassociate(T.ASAP(asap), [gaddr(raws[i]) for i in idxs])
            for i in idxs:
                rows[asap].remove(i)
        verify(at, table, raws, ia, rows, order, n)
    check_eq(len(other.asaps), 1, "another association table is not affected", other)


def big(asaps, count, per, base):
    """many objects with many addresses each; every address shared by many objects"""
    raws = [0x100 + 5 * i for i in range(count)]
    at = T.AddressTable(T.Address(0x1001), [], 255)
    table = T.AssociationTable(at)
    rows, order = {}, [base + a for a in range(asaps)]
    for a in order:
        rows[a] = [(a * 7 + 3 * k) % count for k in range(per)]
        table.associate(T.ASAP(a), [gaddr(raws[i]) for i in rows[a]])
    verify(at, table, raws, 0x1001, rows, order, count)
    for a in order:
        if a % 3 == 0:
            gone = list(rows[a])
            for i in gone[1:]:
                rows[a].remove(i)
            table.disassociate(T.ASAP(a), [gaddr(raws[i]) for i in gone[1:]])
        elif a % 3 == 1:
            i = rows[a][per // 2]
            table.disassociate(T.ASAP(a), [gaddr(raws[i])])
            rows[a].remove(i)
    verify(at, table, raws, 0x1001, rows, order, count)
    for a in order:
        table.associate(T.ASAP(a), [gaddr(raws[count - 1])])
        if count - 1 not in rows[a]:
            rows[a].append(count - 1)
    verify(at, table, raws, 0x1001, rows, order, count)
'''


def legal(init, ops):
    rows = {}
    for a, i in init:
        rows.setdefault(a, set()).add(i)
    for op, a, idxs in ops:
        if op == "assoc":
            rows.setdefault(a, set()).update(idxs)
        else:
            for i in idxs:
                if i not in rows.get(a, ()):
                    return False
                rows[a].discard(i)
    return True


def ctx_assoc(tier):
    quick = tier == "quick"
    inits = ((), ((5, 1),), ((5, 1), (6, 1), (5, 0)), ((6, 2), (5, 2), (6, 2)))
    for init in inits:
        yield "run", dict(n=3, init=init, ops=())
    steps = [(op, a, idxs) for op in ("assoc", "dis") for a in (5, 6)
             for idxs in ((0,), (1,), (1, 0))]
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        for ops in itertools.product(steps, repeat=k):
            for init in (((5, 0), (6, 0)),) if k >= 3 else (((5, 0), (6, 0)), ((5, 1), (6, 0), (5, 0))):
                if legal(init, ops):
                    yield "run", dict(n=2, init=init, ops=ops)
    yield "run", dict(n=3, init=(), ops=(("assoc", 5, (2, 0)), ("assoc", 6, (1,)), ("assoc", 5, (1,)),
                                         ("dis", 5, (2,)), ("dis", 6, (1,)), ("assoc", 6, (2, 1)), ("dis", 5, (1, 0))))
    yield "run", dict(n=2, init=((1, 0), (2, 0), (3, 0)), ops=(("dis", 2, (0,)), ("dis", 1, (0,)), ("dis", 3, (0,)),
                                                              ("assoc", 2, (0, 0)), ("assoc", 4, ()))
                                                              )
    for asaps, count, per, base in ((12, 10, 9, 1), (3, 20, 20, 250)):
        yield "big", dict(asaps=asaps, count=count, per=per, base=base)
    if not quick:
        yield "big", dict(asaps=40, count=41, per=20, base=1)
        yield "big", dict(asaps=4, count=121, per=100, base=65530)


PROPS = [
    Prop("C19", "The address table is sorted, duplicate free and bounded", ADDR, ctx_addr,
         "after construction and after every operation of every bounded history the table equals the model: a strictly ascending "
         "list of the addresses added and not removed, at most max_size, with TSAP and position inverse to each other",
         anchors=["knx_stack.definition.layer.network.address_table"]),
    Prop("C20", "The association table and the address table stay consistent", ASSOC, ctx_assoc,
         "after every bounded history of associations and disassociations both tables equal the model relation",
         anchors=["knx_stack.definition.layer.transport.association_table"]),
]
