"""Machine words, constants and instruction words (C07, C08)."""
from h800 import instructions
from h800.word import InstructionWord, Word

from props import opspec

TOP = 2 ** 48
WIDE = 2 ** 52


def _class(kind):
    if kind == "Word":
        return Word
    return getattr(instructions, opspec.CONSTANTS[kind])


def construct(S, kind):
    v = S.int("v", -WIDE, WIDE)
    fits = S.And(v >= 0, v < TOP)
    r = S.attempt(_class(kind), v)
    if r.ok:
        S.check("only 48-bit values accepted", fits)
        S.check("value stored", r.value.value == v)
        S.observe("value", r.value.value)
    else:
        S.check("48-bit values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))


def assign(S, kind):
    v = S.int("v", 0, TOP - 1)
    x = S.int("x", -WIDE, WIDE)
    fits = S.And(x >= 0, x < TOP)
    w = _class(kind)(v)
    r = S.attempt(setattr, w, "value", x)
    if r.ok:
        S.check("only 48-bit values accepted", fits)
        S.check("value stored", w.value == x)
    else:
        S.check("48-bit values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))
        S.check("rejected keeps value", w.value == v)


def default(S):
    S.check("default is zero", Word().value == 0)
    S.check("default is zero", InstructionWord().value == 0)


def bits(S, kind):
    v = S.int("v", 0, TOP - 1)
    w = _class(kind)(v)
    i = S.int("i", -60, 120)
    if S.fork(S.And(i >= 1, i <= 48)):
        S.check("bit i has weight 2**(48-i)",
                w.data[i] == (v >> (48 - i)) & 1)
    else:
        r = S.attempt(lambda: w.data[i])
        S.check("no such bit", r.raised(ValueError))
    S.check("value kept", w.value == v)


def word_history(S, ops, kind="Word"):
    """Two words; operations on the first must not reach the second."""
    v = S.int("v", 0, TOP - 1)
    u = S.int("u", 0, TOP - 1)
    w = _class(kind)(v)
    other = Word(u)
    ref = v
    for k, op in enumerate(ops):
        if op == "value":
            ref = S.int("x%d" % k, 0, TOP - 1)
            w.value = ref
        elif op == "bad":
            x = S.int("x%d" % k, -WIDE, WIDE)
            S.assume(S.Or(x < 0, x >= TOP))
            r = S.attempt(setattr, w, "value", x)
            S.check("bad value rejected", r.raised(ValueError))
        elif op == "bit":
            i = S.int("i%d" % k, 1, 48)
            b = S.int("b%d" % k, 0, 1)
            w.data[i] = b
            ref = (ref & ~(1 << (48 - i))) | (b << (48 - i))
        elif op == "group":
            g = S.pick("g%d" % k, [0, 1, 2, 3])
            x = S.int("x%d" % k, 0, 4095)
            w.data[12 * g + 1:12 * g + 12] = x
            sh = 36 - 12 * g
            ref = (ref & ~(4095 << sh)) | (x << sh)
        S.check("value after each step", w.value == ref)
    S.check("other word unchanged", other.value == u)
    S.observe("value", w.value)


# -- C08 --------------------------------------------------------------------

GROUPS = ["command", "a", "b", "c"]
SHIFT = {"command": 36, "a": 24, "b": 12, "c": 0}


def groups_ok(S, iw, ref):
    ok = iw.value == ref
    for g in GROUPS:
        ok = S.And(ok, getattr(iw, g) == (ref >> SHIFT[g]) & 4095)
    return ok


def iw_construct(S):
    vals = [S.int(g, -5000, 10000) for g in GROUPS]
    fits = S.And(*[S.And(x >= 0, x <= 4095) for x in vals])
    r = S.attempt(InstructionWord, *vals)
    if r.ok:
        S.check("only 12-bit groups accepted", fits)
        ref = (vals[0] << 36) + (vals[1] << 24) + (vals[2] << 12) + vals[3]
        S.check("word and groups", groups_ok(S, r.value, ref))
        S.observe("value", r.value.value)
    else:
        S.check("12-bit groups accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))


def iw_keywords(S):
    vals = {g: S.int(g, 0, 4095) for g in GROUPS}
    for omit in GROUPS:
        kw = {g: vals[g] for g in GROUPS if g != omit}
        iw = InstructionWord(**kw)
        ref = 0
        for g in kw:
            ref = ref + (kw[g] << SHIFT[g])
        S.check("omitted group is zero", groups_ok(S, iw, ref))


def _iw(S):
    v = S.int("v", 0, TOP - 1)
    start = S.pick("start", ["groups", "value"])
    if start == "groups":
        iw = InstructionWord(v >> 36, (v >> 24) & 4095, (v >> 12) & 4095,
                             v & 4095)
    else:
        iw = InstructionWord()
        iw.value = v
    return iw, v


def iw_assign(S, group):
    iw, v = _iw(S)
    if group == "value":
        x = S.int("x", -WIDE, WIDE)
        fits = S.And(x >= 0, x < TOP)
        ref = x
    else:
        x = S.int("x", -5000, 10000)
        fits = S.And(x >= 0, x <= 4095)
        sh = SHIFT[group]
        ref = (v & ~(4095 << sh)) + (x << sh)
    r = S.attempt(setattr, iw, group, x)
    if r.ok:
        S.check("only fitting values accepted", fits)
        S.check("changes that group only", groups_ok(S, iw, ref))
        S.observe("value", iw.value)
    else:
        S.check("fitting values accepted", S.Not(fits))
        S.check("ValueError", r.raised(ValueError))
        S.check("rejected keeps all groups", groups_ok(S, iw, v))


def iw_history(S, ops):
    iw, ref = _iw(S)
    u = S.int("u", 0, TOP - 1)
    other = InstructionWord()
    other.value = u
    for k, op in enumerate(ops):
        if op == "value":
            ref = S.int("x%d" % k, 0, TOP - 1)
            iw.value = ref
        elif op == "bad":
            g = S.pick("g%d" % k, GROUPS)
            x = S.int("x%d" % k, -5000, 10000)
            S.assume(S.Or(x < 0, x > 4095))
            r = S.attempt(setattr, iw, g, x)
            S.check("bad group rejected", r.raised(ValueError))
        else:
            x = S.int("x%d" % k, 0, 4095)
            setattr(iw, op, x)
            sh = SHIFT[op]
            ref = (ref & ~(4095 << sh)) | (x << sh)
        S.check("after each step", groups_ok(S, iw, ref))
    S.check("other word unchanged", groups_ok(S, other, u))
    S.observe("value", iw.value)
