"""Memory banks and modules (C13-C15) and their iteration (C19)."""
from h800.memory import ExpansionMemoryModule, MemoryBank, MemoryModule

SIZE = 2048
TOP = 2 ** 48
WIDE = 2 ** 52


def tag(i):
    """Distinct contents for every address; spreads over all 48 bits."""
    return ((i + 1) * 0x9E3779B97F4A7C15) % TOP


def filled():
    bank = MemoryBank()
    for i in range(SIZE):
        bank[i] = tag(i)
    return bank


def contents(bank):
    return [bank[i] for i in range(SIZE)]


def same(S, bank, want):
    """All addresses hold want[i] (a dict of exceptions over tag(i))."""
    ok = True
    for i in range(SIZE):
        got = bank[i]
        if i in want:
            ok = S.And(ok, got == want[i])
        else:
            t = tag(i)
            if got is not t and got != t:
                return False
    return ok


# -- C13 --------------------------------------------------------------------

def store(S, lo, hi):
    bank = filled()
    a = S.int("address", lo, hi)
    v = S.int("value", 0, TOP - 1)
    before = bank[a]
    bank[a] = v
    a = S.settle(a)
    S.check("initial contents", before == tag(a))
    S.check("reads back", bank[a] == v)
    S.check("other addresses unchanged", same(S, bank, {a: v}))
    S.check("reading changes nothing", same(S, bank, {a: v}))
    S.check("length", len(bank) == SIZE)


def fill_all(S, order):
    """Every address gets its own symbolic value, then each is overwritten
    once; all 2048 addresses are compared after each block of writes."""
    bank = MemoryBank()
    S.check("initially zero", contents(bank) == [0] * SIZE)
    idx = list(range(SIZE))
    if order == "down":
        idx.reverse()
    elif order == "mixed":
        idx = [(i * 1051 + 7) % SIZE for i in range(SIZE)]
    ref = [0] * SIZE
    for n, i in enumerate(idx):
        x = S.int("x%d" % i, 0, TOP - 1)
        bank[i] = x
        ref[i] = x
        if n % 512 == 511:
            ok = True
            for j in range(SIZE):
                got = bank[j]
                if got is not ref[j]:
                    ok = S.And(ok, got == ref[j])
            S.check("all addresses", ok)
    got = bank[0:SIZE]
    ok = len(got) == SIZE
    for j in range(SIZE):
        if got[j] is not ref[j]:
            ok = S.And(ok, got[j] == ref[j])
    S.check("whole bank as a range", ok)


def slices(S, lo, hi, maxlen):
    bank = filled()
    s = S.int("start", lo, hi)
    n = S.int("n", -2, maxlen)
    e = s + n
    S.assume(S.And(e >= 0, e <= SIZE))
    v = S.int("value", 0, TOP - 1)
    got = bank[s:e]
    bank[s:e] = v
    s, e = S.settle(s), S.settle(e)
    S.check("range read", got == [tag(i) for i in range(s, e)])
    want = {i: v for i in range(s, e)}
    S.check("range store", same(S, bank, want))
    back = bank[s:e]
    ok = len(back) == max(0, e - s)
    for x in back:
        ok = S.And(ok, x == v)
    S.check("range reads back", ok)


def long_slices(S, lo, hi):
    """Ranges that reach from a symbolic start to a far end."""
    bank = filled()
    s = S.settle_int("start", lo, hi)
    e = S.pick("end", [SIZE, SIZE - 1, 1025, 1024, 1023, 512])
    v = S.int("value", 0, TOP - 1)
    got = bank[s:e]
    bank[s:e] = v
    S.check("range read", got == [tag(i) for i in range(s, e)])
    S.check("range store", same(S, bank, {i: v for i in range(s, e)}))


def clear(S, lo, hi):
    bank = filled()
    a = S.int("address", lo, hi)
    v = S.int("value", 0, TOP - 1)
    u = S.int("again", 0, TOP - 1)
    bank[a] = v
    bank.clear()
    S.check("cleared", contents(bank) == [0] * SIZE)
    bank[a] = u
    a = S.settle(a)
    S.check("usable after clear", bank[a] == u)
    rest = contents(bank)
    rest[a] = 0
    S.check("rest stays cleared", rest == [0] * SIZE)


def bank_history(S, ops, window):
    """Mixed operations at symbolic addresses of a window."""
    bank = filled()
    other = filled()
    ref = {}
    zeroed = False
    lo, hi = window
    for k, op in enumerate(ops):
        if op == "store":
            a = S.settle_int("a%d" % k, lo, hi)
            v = S.int("v%d" % k, 0, TOP - 1)
            bank[a] = v
            ref[a] = v
        elif op == "read":
            a = S.settle_int("a%d" % k, lo, hi)
            want = ref[a] if a in ref else (0 if zeroed else tag(a))
            S.check("read in history", bank[a] == want)
        elif op == "range":
            a = S.settle_int("a%d" % k, lo, hi)
            n = S.settle_int("n%d" % k, 0, 3)
            S.assume(a + n <= SIZE)
            v = S.int("v%d" % k, 0, TOP - 1)
            bank[a:a + n] = v
            for i in range(a, a + n):
                ref[i] = v
        elif op == "clear":
            bank.clear()
            ref = {}
            zeroed = True
        elif op == "badvalue":
            a = S.settle_int("a%d" % k, lo, hi)
            v = S.int("v%d" % k, -WIDE, WIDE)
            S.assume(S.Or(v < 0, v >= TOP))
            r = S.attempt(S.setitem, bank, a, v)
            S.check("bad value rejected", r.raised(ValueError))
        elif op == "badaddr":
            a = S.int("a%d" % k, SIZE, 3 * SIZE)
            r = S.attempt(S.setitem, bank, a, 1)
            S.check("bad address rejected", not r.ok)
        elif op == "iter":
            for w in bank:
                break
    if zeroed:
        full = {i: 0 for i in range(SIZE)}
        full.update(ref)
        ref = full
    S.check("contents after history", same(S, bank, ref))
    S.check("other bank unchanged", same(S, other, {}))


# -- C14 --------------------------------------------------------------------

def bad_value(S, lo, hi):
    bank = filled()
    a = S.int("address", lo, hi)
    v = S.int("value", -WIDE, WIDE)
    S.assume(S.Or(v < 0, v >= TOP))
    r = S.attempt(S.setitem, bank, a, v)
    S.check("bad value rejected", r.raised(ValueError))
    S.check("contents kept", same(S, bank, {}))


def bad_value_range(S, lo, hi):
    bank = filled()
    a = S.int("address", lo, hi)
    v = S.int("value", -WIDE, WIDE)
    S.assume(S.Or(v < 0, v >= TOP))
    r = S.attempt(S.setitem, bank, slice(a, a + 2), v)
    S.check("bad value rejected", r.raised(ValueError))
    S.check("contents kept", same(S, bank, {}))


def bad_range(S):
    """A range that is not within the bank, whatever its two ends."""
    bank = filled()
    s = S.pick("start", [-2050, -2, -1, 0, 2046, 2047, 2048, 4000])
    n = S.pick("n", [1, 2, 3, 5])
    S.assume(s < 0 or s + n > SIZE)
    if S.pick("how", ["read", "store"]) == "read":
        r = S.attempt(lambda: bank[s:s + n])
    else:
        v = S.int("value", -WIDE, WIDE)
        r = S.attempt(S.setitem, bank, slice(s, s + n), v)
    S.check("bad range raises", not r.ok)
    S.check("contents kept", same(S, bank, {}))
    S.check("length kept", len(bank) == SIZE)


def bad_address(S):
    bank = filled()
    a = S.int("address", -70000, 70000)
    S.assume(S.Or(a < 0, a >= SIZE))
    how = S.pick("how", ["read", "store"])
    if how == "read":
        r = S.attempt(lambda: bank[a])
    else:
        v = S.int("value", -WIDE, WIDE)
        r = S.attempt(S.setitem, bank, a, v)
    S.check("bad address raises", not r.ok)
    S.check("contents kept", same(S, bank, {}))
    S.check("length kept", len(bank) == SIZE)


def never_outside(S, lo, hi):
    """Whatever is offered, the bank holds a 48-bit value afterwards."""
    bank = MemoryBank()
    a = S.int("address", lo, hi)
    v = S.int("value", -WIDE, WIDE)
    r = S.attempt(S.setitem, bank, a, v)
    S.check("accepted iff it fits", S.Iff(r.ok, S.And(v >= 0, v < TOP)))
    got = bank[a]
    S.check("contents fit 48 bits", S.And(got >= 0, got < TOP))


# -- C15 --------------------------------------------------------------------

MODULES = {"module": (MemoryModule, 4), "expansion": (ExpansionMemoryModule,
                                                      8)}


def mtag(b, i):
    return tag(b * SIZE + i)


def fill_module(m, banks):
    for b in range(banks):
        bank = m[b]
        for i in range(SIZE):
            bank[i] = mtag(b, i)


def module_ok(S, m, banks, want):
    ok = True
    for b in range(banks):
        bank = m[b]
        for i in range(SIZE):
            got = bank[i]
            if (b, i) in want:
                ok = S.And(ok, got == want[b, i])
            elif got != mtag(b, i):
                return False
    return ok


def sizes(S, kind):
    cls, banks = MODULES[kind]
    m = cls()
    S.check("number of banks", len(m) == banks)
    S.check("size", m.size() == banks * SIZE)
    for b in range(banks):
        S.check("bank size", len(m[b]) == SIZE)
        S.check("initially zero", contents(m[b]) == [0] * SIZE)
    b = S.int("bank", -100, 100)
    S.assume(S.Or(b < 0, b >= banks))
    S.check("no other bank", not S.attempt(lambda: m[b]).ok)
    S.check("bank range", len(m[0:banks]) == banks)


def isolate(S, kind, bank, lo, hi):
    """One symbolic store into a module; a second module stands by."""
    cls, banks = MODULES[kind]
    m = cls()
    fill_module(m, banks)
    twin = MemoryModule()
    for x in range(4):
        twin[x][x] = mtag(x, x)
    b = S.int("bank", bank, bank)
    a = S.int("address", lo, hi)
    v = S.int("value", 0, TOP - 1)
    how = S.pick("how", ["index", "range"])
    if how == "index":
        m[b][a] = v
    else:
        m[b:b + 1][0][a] = v
    a = S.settle(a)
    S.check("that location only", module_ok(S, m, banks, {(bank, a): v}))
    ok = True
    for x in range(4):
        want = [0] * SIZE
        want[x] = mtag(x, x)
        ok = ok and contents(twin[x]) == want
    S.check("other module unchanged", ok)


def isolate_all(S, kind):
    """Every location of the module gets its own value, all of them
    different whatever the symbolic part is."""
    cls, banks = MODULES[kind]
    m = cls()
    other = cls()
    ref = {}
    v = S.int("v", 0, TOP - 1)
    for i in range(SIZE):
        for b in range(banks):
            x = v ^ mtag(b, i)
            m[b][i] = x
            ref[b, i] = x
    ok = True
    for b in range(banks):
        bank = m[b]
        for i in range(SIZE):
            got = bank[i]
            if got is not ref[b, i]:
                ok = S.And(ok, got == ref[b, i])
    S.check("every location independent", ok)
    S.check("other module unchanged",
            all([contents(other[b]) == [0] * SIZE for b in range(banks)]))


def bank_ranges(S, kind):
    """A range of banks is those banks, in order; there are no others."""
    cls, banks = MODULES[kind]
    m = cls()
    s = S.pick("start", [-1, 0, 1, banks - 1, banks])
    e = S.pick("end", [0, 2, banks - 1, banks, banks + 1])
    r = S.attempt(lambda: m[s:e])
    want = list(range(s, e))
    if all([0 <= b < banks for b in want]):
        S.check("those banks in order", r.ok and len(r.value) == len(want)
                and all([r.value[i] is m[b] for i, b in enumerate(want)]))
    else:
        S.check("no banks outside the module", not r.ok)
    S.check("number of banks", len(m) == banks)


def clear_one(S, kind):
    cls, banks = MODULES[kind]
    m = cls()
    fill_module(m, banks)
    b = S.settle_int("bank", 0, banks - 1)
    m[b].clear()
    S.check("clearing a bank leaves the others",
            module_ok(S, m, banks, {(b, i): 0 for i in range(SIZE)}))


# -- C19 --------------------------------------------------------------------

def iterate(S, lo, hi):
    bank = filled()
    k = S.settle_int("abandon_after", lo, hi)
    n = 0
    if k > 0:
        for w in bank:
            n += 1
            if n == k:
                break
    for attempt in ("first", "second"):
        ws = []
        for w in bank:
            ws.append(w)
        ok = len(ws) == SIZE
        for i in range(min(len(ws), SIZE)):
            if ws[i].value != tag(i):
                ok = False
        S.check("every element in order", ok)
    x = S.int("x", 0, TOP - 1)
    i = S.settle_int("i", 0, 2)
    ws[i].value = x
    S.check("the elements that indexing reaches", bank[i] == x)


def iterate_after(S, ops, lo, hi, sparse):
    """The order of iteration does not depend on what was done before."""
    bank = MemoryBank() if sparse else filled()
    ref = [0 if sparse else tag(i) for i in range(SIZE)]
    for k, op in enumerate(ops):
        a = S.settle_int("a%d" % k, lo, hi)
        if op == "store":
            bank[a] = ref[a] = S.int("v%d" % k, 0, TOP - 1)
        elif op == "range":
            v = S.int("v%d" % k, 0, TOP - 1)
            bank[a:a + 2] = v
            ref[a] = ref[a + 1] = v
        elif op == "clear":
            bank.clear()
            ref = [0] * SIZE
        elif op == "bad":
            S.attempt(S.setitem, bank, a, TOP)
            S.attempt(lambda: bank[SIZE + a])
            S.attempt(S.setitem, bank, SIZE + a, 1)
            S.attempt(S.setitem, bank, -1 - a, 1)
        elif op == "read":
            bank[a], bank[a:a + 2]
    ws = list(bank)
    ok = len(ws) == SIZE
    for i in range(min(len(ws), SIZE)):
        got = ws[i].value
        if got is not ref[i]:
            ok = S.And(ok, got == ref[i])
    S.check("every element in order", ok)
    ws[hi].value = 1
    S.check("the elements that indexing reaches", bank[hi] == 1)


def iterate_nested(S):
    bank = filled()
    k = S.settle_int("outer", 0, 3)
    seen = []
    for n, w in enumerate(bank):
        seen.append(w.value)
        if n == k:
            inner = [x.value for x in bank]
            S.check("inner iteration complete",
                    inner == [tag(i) for i in range(SIZE)])
    S.check("outer iteration complete",
            seen == [tag(i) for i in range(SIZE)])


def iterate_elements(S, lo, hi):
    """Writing through the iterated element is seen by indexing, and the
    other way round, at every address."""
    bank = filled()
    a = S.settle_int("address", lo, hi)
    x = S.int("x", 0, TOP - 1)
    y = S.int("y", 0, TOP - 1)
    bank[a] = y
    ws = list(bank)
    S.check("element shows the store", ws[a].value == y)
    ws[a].value = x
    S.check("store through element", same(S, bank, {a: x}))
