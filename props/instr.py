"""Machine instruction encoding (C09-C12)."""
from h800 import instruction, instructions

from props import opspec

MASKED, UNMASKED = opspec.MASKED, opspec.UNMASKED
PERIPHERAL, PRINT = opspec.PERIPHERAL, opspec.PRINT


def forms_of(m):
    r = []
    if m in MASKED:
        r.append("masked")
    if m in UNMASKED:
        r.append("unmasked")
    if m in PERIPHERAL:
        r.append("peripheral")
    if m in PRINT:
        r.append("print")
    if m == "S":
        r.append("simulator")
    if m == "PR":
        r.append("proceed")
    return r


def operands(S, form, lo=0, hi=None, tag=""):
    """Symbolic operands; legal ones by default."""
    def num(name, top):
        if hi is None:
            return S.int(name + tag, 0, top)
        return S.int(name + tag, lo, hi)
    if form == "masked":
        return {"sequence": num("sequence", 1), "mask": num("mask", 31)}
    if form in ("unmasked", "print"):
        return {"sequence": num("sequence", 1), "a": num("a", 1),
                "b": num("b", 1), "c": num("c", 1)}
    if form == "peripheral":
        return {"paddr": num("paddr", 63)}
    if form == "simulator":
        return {"sequence": num("sequence", 1)}
    return {}


LIMIT = {"sequence": 1, "a": 1, "b": 1, "c": 1, "mask": 31, "paddr": 63}


def legal(S, ops):
    ok = True
    for n in ops:
        ok = S.And(ok, ops[n] >= 0, ops[n] <= LIMIT[n])
    return ok


def documented(m, form, o):
    if form == "masked":
        return (o["sequence"] << 11) | (o["mask"] << 6) | 0b100000 | \
            MASKED[m]
    if form == "unmasked":
        b23, op = UNMASKED[m]
        return (o["sequence"] << 11) | (b23 << 9) | (o["a"] << 8) | \
            (o["b"] << 7) | (o["c"] << 6) | op
    if form == "peripheral":
        return (o["paddr"] << 6) | 0b100000 | PERIPHERAL[m]
    if form == "print":
        return (o["sequence"] << 11) | (o["a"] << 8) | (o["b"] << 7) | \
            (o["c"] << 6) | 0b100000 | PRINT[m]
    if form == "simulator":
        return (o["sequence"] << 11) | opspec.SIMULATOR
    return 0


def build(m, o):
    return getattr(instructions, opspec.CLASSES[m])(**o)


# -- C09 --------------------------------------------------------------------

def encode(S, m):
    for form in forms_of(m):
        o = operands(S, form, tag="_" + form)
        i = build(m, o)
        S.check("documented command code", i.value == documented(m, form, o))
        S.check("class named by the table",
                instructions.OPCODES[m].c == opspec.CLASSES[m])
        S.check("class named by the table",
                type(i) is getattr(instructions, instructions.OPCODES[m].c))
        S.observe(form, i.value)


def encode_positional(S, m):
    """Operands in their documented positional order."""
    for form in forms_of(m):
        o = operands(S, form, tag="_" + form)
        cls = getattr(instructions, opspec.CLASSES[m])
        if form == "masked":
            i = cls(o["sequence"], o["mask"])
        elif form == "unmasked" and m in MASKED:
            i = cls(o["sequence"], None, o["a"], o["b"], o["c"])
        else:
            i = cls(*[o[n] for n in o])
        S.check("documented command code", i.value == documented(m, form, o))


def encode_bools(S, m):
    """Sequence and activity given as truth values."""
    for form in forms_of(m):
        o = operands(S, form, tag="_" + form)
        p = {}
        for n in o:
            p[n] = (o[n] == 1) if n in ("sequence", "a", "b", "c") else o[n]
        i = build(m, p)
        S.check("documented command code", i.value == documented(m, form, o))


def encode_history(S, ms):
    """Several instructions exist side by side; odd ones get complemented
    operands."""
    o0 = {"sequence": S.int("sequence", 0, 1), "a": S.int("a", 0, 1),
          "b": S.int("b", 0, 1), "c": S.int("c", 0, 1),
          "mask": S.int("mask", 0, 31), "paddr": S.int("paddr", 0, 63)}
    o1 = {n: LIMIT[n] - o0[n] for n in o0}
    objs = []
    for k, m in enumerate(ms):
        for form in forms_of(m):
            o = {n: (o1 if k % 2 else o0)[n] for n in operands_of(form)}
            objs.append((build(m, o), documented(m, form, o)))
    ok = True
    for i, want in objs:
        ok = S.And(ok, i.value == want)
    S.check("documented command codes", ok)


def table(S):
    names = list(instructions.OPCODES)
    S.check("table has exactly the documented mnemonics",
            sorted(names) == sorted(opspec.CLASSES))
    for m in names:
        S.check("entry carries its mnemonic", instructions.OPCODES[m].m == m)
    S.check("known instruction names",
            sorted(set(instructions.INSTRUCTIONS)) == sorted(opspec.KNOWN))


# -- C10 --------------------------------------------------------------------

def reject(S, m, form):
    o = operands(S, form, -40, 100)
    ok = legal(S, o)
    r = S.attempt(build, m, o)
    if r.ok:
        S.check("illegal operands rejected", ok)
        S.check("documented command code",
                S.Implies(ok, r.value.value == _doc(S, m, form, o)))
    else:
        S.check("legal operands accepted", S.Not(ok))
        S.check("ValueError", r.raised(ValueError))


def _doc(S, m, form, o):
    p = {n: S.ite(S.And(o[n] >= 0, o[n] <= LIMIT[n]), o[n], 0) for n in o}
    return documented(m, form, p)


def mask_and_active(S, m):
    o = {"sequence": S.int("sequence", -3, 4), "mask": S.int("mask", -5, 40)}
    which = S.pick("which", ["a", "b", "c", "ab", "ac", "bc", "abc"])
    for n in which:
        o[n] = S.int(n, -2, 3)
    r = S.attempt(build, m, o)
    S.check("mask with A/B/C rejected", r.raised(ValueError))


def paddr_and_others(S, m):
    """A peripheral address given along with any other operand."""
    o = {"paddr": S.int("paddr", -3, 70)}
    which = S.pick("which", ["sequence", "mask", "a", "b", "c", "sequence a",
                             "a b c", "sequence mask", "mask c"])
    for n in which.split():
        o[n] = S.int(n, -2, 40)
    r = S.attempt(instruction.Instruction, instructions.OPCODES[m], **o)
    S.check("peripheral address with other operands rejected",
            r.raised(ValueError))


def mask_elsewhere(S, m):
    """A mask given to an instruction that has no masked form."""
    o = {"mask": S.int("mask", -3, 40)}
    if S.pick("seq", [False, True]):
        o["sequence"] = S.int("sequence", -2, 3)
    r = S.attempt(instruction.Instruction, instructions.OPCODES[m], **o)
    S.check("mask rejected", r.raised(ValueError))


# -- C11 --------------------------------------------------------------------

def generate(m, form, o):
    g = instructions
    if form == "masked":
        return g.make_masked_opcode(m, o["sequence"], o["mask"])
    if form == "unmasked":
        return g.make_unmasked_opcode(m, o["sequence"], o["a"], o["b"],
                                      o["c"])
    if form == "peripheral":
        return g.make_peripheral_opcode(m, o["paddr"])
    return g.make_print_opcode(m, o["sequence"], o["a"], o["b"], o["c"])


def generators(S, m):
    for form in forms_of(m):
        if form in ("simulator", "proceed"):
            continue
        o = operands(S, form, tag="_" + form)
        code = generate(m, form, o)
        S.check("generator gives the documented code",
                code == documented(m, form, o))
        S.check("generator agrees with the instruction",
                code == build(m, o).value)
        S.check("fits 12 bits", S.And(code >= 0, code <= 0o7777))
        S.observe(form, code)


def generator_history(S, ms):
    """Repeated generation does not depend on what was generated before."""
    for k, m in enumerate(ms):
        for form in forms_of(m):
            if form in ("simulator", "proceed"):
                continue
            o = operands(S, form, tag="_%d_%s" % (k, form))
            S.check("generator gives the documented code",
                    generate(m, form, o) == documented(m, form, o))


# -- C12 --------------------------------------------------------------------

ALL_FORMS = [(m, f) for m in opspec.CLASSES for f in forms_of(m)]


def identity(x, y):
    """Documented identities."""
    if x[1] == "print" and y[1] == "print":
        return True
    return sorted([x, y]) == [("FNN", "unmasked"), ("NA", "unmasked")]


def distinct(S, a, b, c, part, parts):
    """Operand set 1 (activity bits fixed by the task) against set 2."""
    one = {"sequence": S.int("sequence1", 0, 1), "a": a, "b": b, "c": c,
           "mask": S.int("mask1", 0, 31), "paddr": S.int("paddr1", 0, 63)}
    two = {"sequence": S.int("sequence2", 0, 1), "a": S.int("a2", 0, 1),
           "b": S.int("b2", 0, 1), "c": S.int("c2", 0, 1),
           "mask": S.int("mask2", 0, 31), "paddr": S.int("paddr2", 0, 63)}
    first, second = [], []
    for k, x in enumerate(ALL_FORMS):
        names = list(operands_of(x[1]))
        if k % parts == part:
            first.append((x, build(x[0], {n: one[n] for n in names}).value))
        second.append((x, build(x[0], {n: two[n] for n in names}).value))
    for x, cx in first:
        for y, cy in second:
            if x == y:
                same = True
                for n in operands_of(x[1]):
                    same = S.And(same, one[n] == two[n])
                S.check("code determines the operands",
                        S.Implies(cx == cy, same))
            elif not identity(x, y):
                S.check("different instructions differ", S.Not(cx == cy))


def operands_of(form):
    return {"masked": ("sequence", "mask"),
            "unmasked": ("sequence", "a", "b", "c"),
            "print": ("sequence", "a", "b", "c"),
            "peripheral": ("paddr",), "simulator": ("sequence",),
            "proceed": ()}[form]


# -- C41 --------------------------------------------------------------------

def listed_form(m):
    """The form in which the code listing shows a mnemonic, and how many
    different codes that is."""
    if m in MASKED:
        return "masked", 64
    if m in PERIPHERAL:
        return "peripheral", 64
    if m in PRINT:
        return ("print", 16) if m == "PRD" else (None, 0)
    if m == "S":
        return "simulator", 2
    return "unmasked", 16


def code_listing(S, ms):
    """The printed listing of all command codes, against every instruction
    of the mnemonics ms with symbolic operands."""
    r = S.run(instructions.print_instructions)
    S.check("no error", r.exc is None)
    entries = []
    for line in r.out:
        code, name = line.split()
        S.check("octal code", len(code) == 6 and code[:2] == "0o")
        entries.append((int(code[2:], 8), name))
        S.check("line", line == "0o%04o %s" % entries[-1])
    values = [v for v, _ in entries]
    S.check("ascending, each code once",
            all([x < y for x, y in zip(values, values[1:])]))
    S.check("only mnemonics of the table",
            all([n in opspec.CLASSES for _, n in entries]))
    S.check("number of codes", len(entries) ==
            sum([listed_form(m)[1] for m in opspec.CLASSES]))
    for m in ms:
        form, n = listed_form(m)
        mine = [v for v, name in entries if name == m]
        S.check("number of codes of a mnemonic", len(mine) == n)
        if n == 0:
            continue
        o = operands(S, form, tag="_" + m)
        if m == "PR":
            code = (o["sequence"] << 11) | (o["a"] << 8) | (o["b"] << 7) | \
                (o["c"] << 6)
        else:
            code = documented(m, form, o)
        S.check("code listed under its mnemonic",
                S.Or(False, *[code == v for v in mine]))
    again = S.run(instructions.print_instructions)
    S.check("same again", again.out == r.out)
