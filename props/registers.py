"""Registers (C16-C18) and their iteration (C19)."""
from h800.registers import (Register, RegisterGroup, Registers,
                            registerAlias, registerName, registerNumber)

NAMES = ["AU1", "AU2", "SC", "CSC", "SH", "CSH", "UTR", "MXR",
         "X0", "X1", "X2", "X3", "X4", "X5", "X6", "X7",
         "R0", "R1", "R2", "R3", "R4", "R5", "R6", "R7",
         "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7"]
ALIASES = {"RAC": 28, "DRAC": 29, "WAC": 30, "DWAC": 31}
GROUPS = 8
COUNT = 32


def tag(g, k, width):
    return ((g * COUNT + k + 1) * 40503) % (2 ** width)


# -- C16 --------------------------------------------------------------------

def construct(S, width):
    v = S.int("v", -2 ** 30, 2 ** 30)
    fits = S.And(v >= 0, v < 2 ** width)
    r = S.attempt(Register, v, width=width)
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("value stored", r.value.value == v)
        S.check("width", S.And(r.value.width == width,
                               len(r.value) == width))
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))


def default(S):
    S.check("default register", Register().value == 0)
    S.check("default width", Register().width == 16)


def assign(S, width):
    v = S.int("v", 0, 2 ** width - 1)
    x = S.int("x", -2 ** 30, 2 ** 30)
    fits = S.And(x >= 0, x < 2 ** width)
    reg = Register(v, width=width)
    r = S.attempt(setattr, reg, "value", x)
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("value stored", reg.value == x)
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))
        S.check("rejected keeps value", reg.value == v)


def bits(S, width):
    v = S.int("v", 0, 2 ** width - 1)
    reg = Register(v, width=width)
    i = S.int("i", -40, 80)
    b = S.int("b", 0, 1)
    if S.fork(S.And(i >= 1, i <= width)):
        S.check("bit read", reg[i] == (v >> (width - i)) & 1)
        reg[i] = b
        p = width - i
        S.check("bit write", reg.value == (v & ~(1 << p)) | (b << p))
    else:
        r = S.attempt(lambda: reg[i])
        S.check("no such bit", r.raised(ValueError))
        r = S.attempt(S.setitem, reg, i, b)
        S.check("no such bit to write", r.raised(ValueError))
        S.check("rejected keeps value", reg.value == v)


def ranges(S, width):
    v = S.int("v", 0, 2 ** width - 1)
    reg = Register(v, width=width)
    s = S.int("s", -40, 80)
    e = S.int("e", -40, 80)
    x = S.int("x", -2 ** 30, 2 ** 30)
    if S.fork(S.And(s >= 1, e <= width, s <= e)):
        n = e - s + 1
        lo = width - e
        ones = (1 << n) - 1
        S.check("range read", reg[s:e] == (v >> lo) & ones)
        fits = S.And(x >= 0, x <= ones)
        r = S.attempt(S.setitem, reg, slice(s, e), x)
        if r.ok:
            S.check("only fitting values accepted", fits)
            S.check("range write",
                    reg.value == (v & ~(ones << lo)) | (x << lo))
        else:
            S.check("fitting values accepted", S.Not(fits))
            S.check("ValueError", r.raised(ValueError))
            S.check("rejected keeps value", reg.value == v)
    else:
        r = S.attempt(lambda: reg[s:e])
        S.check("no such range", r.raised(ValueError))
        r = S.attempt(S.setitem, reg, slice(s, e), x)
        S.check("no such range to write", r.raised(ValueError))
        S.check("rejected keeps value", reg.value == v)


def register_history(S, width, ops):
    v = S.int("v", 0, 2 ** width - 1)
    u = S.int("u", 0, 2 ** width - 1)
    reg = Register(v, width=width)
    other = Register(u, width=width)
    ref = v
    for k, op in enumerate(ops):
        if op == "value":
            ref = S.int("x%d" % k, 0, 2 ** width - 1)
            reg.value = ref
        elif op == "clear":
            reg.clear()
            ref = 0
        elif op == "bit":
            i = S.int("i%d" % k, 1, width)
            b = S.int("b%d" % k, 0, 1)
            reg[i] = b
            ref = (ref & ~(1 << (width - i))) | (b << (width - i))
        elif op == "range":
            s = S.int("s%d" % k, 1, width)
            n = S.int("n%d" % k, 1, width)
            S.assume(s + n - 1 <= width)
            x = S.int("x%d" % k, 0, 2 ** width - 1)
            S.assume(x >> n == 0)
            reg[s:s + n - 1] = x
            lo = width - (s + n - 1)
            ref = (ref & ~(((1 << n) - 1) << lo)) | (x << lo)
        elif op == "bad":
            x = S.int("x%d" % k, -2 ** 30, 2 ** 30)
            S.assume(S.Or(x < 0, x >> width != 0))
            r = S.attempt(setattr, reg, "value", x)
            S.check("bad value rejected", r.raised(ValueError))
        S.check("value after each step", reg.value == ref)
    S.check("other register unchanged", other.value == u)
    S.observe("value", reg.value)


# -- C17 --------------------------------------------------------------------

def names(S):
    n = S.int("number", -1000, 1000)
    r = S.attempt(registerName, n)
    a = S.attempt(registerAlias, n)
    if S.fork(S.And(n >= 0, n < COUNT)):
        S.check("valid number accepted", r.ok and a.ok)
        if r.ok and a.ok:
            k = S.settle(n)
            S.check("documented name", r.value == NAMES[k])
            S.check("name to number", registerNumber(r.value) == k)
            alias = [x for x in ALIASES if ALIASES[x] == k]
            S.check("alias", a.value == (alias[0] if alias else NAMES[k]))
            S.check("alias to number", registerNumber(a.value) == k)
    else:
        S.check("bad number rejected",
                r.raised(ValueError) and a.raised(ValueError))


def numbers(S, length):
    name = S.str("name", length, minlen=length)
    r = S.attempt(registerNumber, name)
    known = {NAMES[k]: k for k in range(COUNT)}
    known.update(ALIASES)
    is_known = S.Or(*[name == x for x in known])
    if r.ok:
        S.check("unknown name rejected", is_known)
        S.check("documented number",
                S.And(*[S.Implies(name == x, r.value == known[x])
                        for x in known]))
        S.observe("number", r.value)
    else:
        S.check("known name accepted", S.Not(is_known))
        S.check("ValueError", r.raised(ValueError))


def group_by_name(S, length, width):
    g = RegisterGroup(width=width)
    for k in range(COUNT):
        g[k].value = tag(0, k, width)
    name = S.str("name", length, minlen=length)
    for x in ALIASES:
        S.assume(S.Not(name == x))
    r = S.attempt(lambda: g[name])
    is_known = S.Or(*[name == x for x in NAMES])
    if r.ok:
        S.check("unknown name rejected", is_known)
        reg = r.value
        S.check("register of that name",
                S.And(*[S.Implies(name == NAMES[k],
                                  S.And(reg.value == tag(0, k, width),
                                        reg.name == NAMES[k]))
                        for k in range(COUNT)]))
    else:
        S.check("known name accepted", S.Not(is_known))
        S.check("ValueError", r.raised(ValueError))


def group_by_number(S, width):
    g = RegisterGroup(width=width)
    S.check("32 registers", len(g) == COUNT)
    S.check("group width", g.width == width)
    for k in range(COUNT):
        g[k].value = tag(0, k, width)
    n = S.int("number", -1000, 1000)
    r = S.attempt(lambda: g[n])
    if S.fork(S.And(n >= 0, n < COUNT)):
        S.check("valid number accepted", r.ok)
        if r.ok:
            k = S.settle(n)
            S.check("register of that number",
                    r.value.value == tag(0, k, width))
            S.check("same register by name", r.value is g[NAMES[k]])
            S.check("its name", r.value.name == NAMES[k])
            S.check("its width", r.value.width == width)
    else:
        S.check("bad number rejected", r.raised(ValueError))


# -- C18 --------------------------------------------------------------------

def filled(width):
    regs = Registers(width=width)
    for g in range(GROUPS):
        for k in range(COUNT):
            regs[g][k].value = tag(g, k, width)
    return regs


def file_ok(S, regs, width, want):
    """want: {(g, k): value} exceptions to tag(g, k)."""
    ok = True
    for g in range(GROUPS):
        grp = regs[g]
        for k in range(COUNT):
            got = grp[k].value
            if (g, k) in want:
                ok = S.And(ok, got == want[g, k])
            elif got != tag(g, k, width):
                return False
    return ok


def write(S, width, group):
    regs = filled(width)
    S.check("8 groups", len(regs) == GROUPS)
    S.check("file width", regs.width == width)
    k = S.int("k", 0, COUNT - 1)
    v = S.int("v", 0, 2 ** width - 1)
    how = S.pick("how", ["number", "name", "bits", "clear"])
    kk = S.settle(k)
    if how == "number":
        regs[group][k].value = v
    elif how == "name":
        regs[group][NAMES[kk]].value = v
    elif how == "bits":
        regs[group][k][1:width] = v
    else:
        regs[group][k].clear()
        v = 0
    S.check("other registers unchanged",
            file_ok(S, regs, width, {(group, kk): v}))
    S.check("by name and by number agree",
            S.And(regs[group][NAMES[kk]].value == v,
                  regs[group][kk].value == v))


def group_index(S, width):
    regs = filled(width)
    g = S.int("g", -1000, 1000)
    r = S.attempt(lambda: regs[g])
    if S.fork(S.And(g >= 0, g < GROUPS)):
        S.check("valid group accepted", r.ok)
        if r.ok:
            gg = S.settle(g)
            S.check("that group", [r.value[k].value for k in range(COUNT)] ==
                    [tag(gg, k, width) for k in range(COUNT)])
    else:
        S.check("bad group rejected", r.raised(ValueError))
        new = RegisterGroup(width=width)
        r = S.attempt(S.setitem, regs, g, new)
        S.check("bad group not replaced", r.raised(ValueError))
        S.check("nothing changed", S.And(len(regs) == GROUPS,
                                         file_ok(S, regs, width, {})))


def replace(S, width, how):
    """Replace one register of a group."""
    regs = filled(width)
    g = S.settle_int("g", 0, GROUPS - 1)
    k = S.int("k", 0, COUNT - 1)
    v = S.int("v", 0, 2 ** width - 1)
    new = Register(v, width=width)
    kk = S.settle(k)
    if how == "name":
        regs[g][NAMES[kk]] = new
    else:
        regs[g][k] = new
    S.check("by number", regs[g][kk] is new)
    S.check("by name", regs[g][NAMES[kk]] is new)
    S.check("others unchanged", file_ok(S, regs, width, {(g, kk): v}))
    S.check("still 32 registers", len(regs[g]) == COUNT)
    u = S.int("u", 0, 2 ** width - 1)
    regs[g][kk].value = u
    S.check("writes reach the replacement", new.value == u)
    regs.clear()
    S.check("clear reaches the replacement", new.value == 0)


def replace_bad(S, width, length):
    """Invalid names and numbers are rejected and change nothing."""
    regs = filled(width)
    new = Register(1, width=width)
    if length is None:
        key = S.int("key", -1000, 1000)
        S.assume(S.Or(key < 0, key >= COUNT))
    else:
        key = S.str("key", length, minlen=length)
        for x in NAMES + list(ALIASES):
            S.assume(S.Not(key == x))
    r = S.attempt(S.setitem, regs[3], key, new)
    S.check("bad key rejected", r.raised(ValueError))
    S.check("nothing changed", S.And(file_ok(S, regs, width, {}),
                                     len(regs[3]) == COUNT))


def replace_group(S, width):
    regs = filled(width)
    g = S.int("g", 0, GROUPS - 1)
    new = RegisterGroup(width=width)
    v = S.int("v", 0, 2 ** width - 1)
    new[5].value = v
    regs[g] = new
    gg = S.settle(g)
    S.check("later accesses see it", regs[gg] is new)
    want = {(gg, k): 0 for k in range(COUNT)}
    want[gg, 5] = v
    S.check("others unchanged", file_ok(S, regs, width, want))
    S.check("still 8 groups", len(regs) == GROUPS)
    regs.clear()
    S.check("clear reaches the replacement", new[5].value == 0)


def clear(S, width, what):
    """Clear after an arbitrary amount of earlier iteration."""
    regs = filled(width)
    g = S.settle_int("g", 0, GROUPS - 1)
    k = S.settle_int("k", 0, COUNT - 1)
    v = S.int("v", 0, 2 ** width - 1)
    regs[g][k].value = v
    steps = S.pick("iterated", [0, 1, 5, 8, 32])
    n = 0
    for x in (regs if what == "file" else regs[g]):
        if n == steps:
            break
        n += 1
    if what == "file":
        regs.clear()
        want = {(i, j): 0 for i in range(GROUPS) for j in range(COUNT)}
    else:
        regs[g].clear()
        want = {(g, j): 0 for j in range(COUNT)}
    S.check("exactly those registers cleared",
            file_ok(S, regs, width, want))
    regs[g][k].value = v
    if what == "file":
        regs.clear()
        v = 0
    else:
        regs[g].clear()
        v = 0
    S.check("clears again", file_ok(S, regs, width, want))


def two_files(S, width):
    one = filled(width)
    two = filled(width)
    g = S.settle_int("g", 0, GROUPS - 1)
    k = S.settle_int("k", 0, COUNT - 1)
    v = S.int("v", 0, 2 ** width - 1)
    one[g][k].value = v
    S.check("other file unchanged", file_ok(S, two, width, {}))
    one.clear()
    S.check("clearing leaves the other file", file_ok(S, two, width, {}))


# -- C19 --------------------------------------------------------------------

def iterate_group(S, width):
    regs = filled(width)
    g = S.settle_int("g", 0, GROUPS - 1)
    k = S.settle_int("abandon_after", 0, COUNT)
    n = 0
    for r in regs[g]:
        if n == k:
            break
        n += 1
    for attempt in (1, 2):
        got = list(regs[g])
        S.check("every register in order",
                len(got) == COUNT and
                all([got[i] is regs[g][i] for i in range(COUNT)]))
    S.check("other group", [r.value for r in regs[(g + 1) % GROUPS]] ==
            [tag((g + 1) % GROUPS, i, width) for i in range(COUNT)])
    x = S.int("x", 0, 2 ** width - 1)
    i = (k + g) % COUNT
    got[i].value = x
    S.check("the elements that indexing reaches", regs[g][i].value == x)


def iterate_group_nested(S, width):
    grp = RegisterGroup(width=width)
    k = S.settle_int("outer", 0, COUNT - 1)
    seen = []
    for n, r in enumerate(grp):
        seen.append(r.name)
        if n == k:
            S.check("inner iteration complete",
                    [x.name for x in grp] == NAMES)
    S.check("outer iteration complete", seen == NAMES)


def iterate_replaced(S, width, how):
    """Iteration visits the replacement, in place of the old register."""
    grp = RegisterGroup(width=width)
    k = S.settle_int("k", 0, COUNT - 1)
    new = Register(1, width=width)
    if how == "name":
        grp[NAMES[k]] = new
    else:
        grp[k] = new
    got = list(grp)
    S.check("visits the replacement in order",
            len(got) == COUNT and
            all([got[i] is grp[i] for i in range(COUNT)]) and
            got[k] is new)


def iterate_after(S, width, op):
    """The order of iteration does not depend on what was done before."""
    grp = RegisterGroup(width=width)
    k = S.settle_int("k", 0, COUNT - 1)
    ref = [0] * COUNT
    grp[k].value = ref[k] = S.int("x", 1, 2 ** width - 1)
    if op == "clear":
        grp.clear()
        ref[k] = 0
    elif op == "bad":
        S.attempt(S.setitem, grp, COUNT + k, Register(1, width=width))
        S.attempt(S.setitem, grp, "ZZ", Register(1, width=width))
        S.attempt(lambda: grp[COUNT + k])
    elif op == "one":
        grp[k].clear()
        ref[k] = 0
    got = list(grp)
    S.check("every register in order", len(got) == COUNT and
            [r.name for r in got] == NAMES and
            all([got[i] is grp[i] for i in range(COUNT)]))
    S.check("their contents", S.And(True, *[
        r.value == ref[i] for i, r in enumerate(got)]))


def iterate_file(S, width):
    """First iteration of a register file."""
    regs = filled(width)
    g = S.settle_int("g", 0, GROUPS - 1)
    new = RegisterGroup(width=width)
    if S.fork(S.bool("replace")):
        regs[g] = new
    got = list(regs)
    S.check("every group in order", len(got) == GROUPS and
            all([got[i] is regs[i] for i in range(GROUPS)]))
    x = S.int("x", 0, 2 ** width - 1)
    got[g][7].value = x
    S.check("the elements that indexing reaches", regs[g][7].value == x)


def iterate_file_again(S, width):
    """Iterating a register file that has been iterated before."""
    regs = filled(width)
    k = S.settle_int("abandon_after", 0, GROUPS)
    n = 0
    if k > 0:
        for g in regs:
            n += 1
            if n == k:
                break
    got = list(regs)
    full = [regs[i] for i in range(GROUPS)]
    whole = len(got) == GROUPS and \
        all([got[i] is full[i] for i in range(GROUPS)])
    rest = len(got) == GROUPS - k and \
        all([got[i] is full[k + i] for i in range(len(got))])
    S.check("groups in order", whole or rest)
    S.check("starts at the first group again", whole)
