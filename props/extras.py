"""Printed forms (C38), verbose output (C39) and refused usage (C40)."""
from h800.arguscard import Deck as ArgusDeck
from h800.memory import MemoryBank
from h800.punchcard import Deck
from h800.registers import Register, RegisterGroup, Registers
from h800.symbol_table import buildSymbolTable, checkSymbolTable
from props.symtab import make_card

TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"
DECKS = {"punch": Deck, "argus": ArgusDeck}


# -- C38 --------------------------------------------------------------------

def octal(S, v, digits, most):
    """v in octal, at least digits and at most `most` digits."""
    n = digits
    while n < most and S.fork(v >= 8 ** n):
        n += 1
    out = ""
    for k in reversed(range(n)):
        out = out + "01234567"[(v >> (3 * k)) & 7]
    return out


def cell(S, v, width):
    return "0o" + octal(S, v, 6, -(-width // 3))


def tag(i, width):
    return ((i + 1) * 0x9E3779B97F4A7C15) % (2 ** width)


def print_register(S, width):
    v = S.int("v", 0, 2 ** width - 1)
    r = Register(v, width=width)
    S.check("register in octal", repr(r) == cell(S, v, width))
    S.check("same as text", str(r) == repr(r))
    S.check("printing keeps the value", r.value == v)


def print_group(S, width, how):
    """A group with arbitrary contents in one register."""
    g = RegisterGroup(width=width)
    k = S.settle_int("k", 0, 31)
    v = S.int("v", 0, 2 ** width - 1)
    want = []
    for i in range(32):
        g[i].value = tag(i, width)
        want.append(tag(i, width))
    if how == "value":
        g[k].value = v
    elif how == "replace":
        g[k] = Register(v, width=width)
    elif how == "other":
        # a register of the other width
        other = 40 - width
        v = S.int("u", 0, 2 ** other - 1)
        g[k] = Register(v, width=other)
    elif how == "clear":
        g.clear()
        g[k].value = v
        want = [0] * 32
    want[k] = v
    text = ""
    for x in want:
        text = text + cell(S, x, 24) + " "
    S.check("every register in order", repr(g) == text)


def print_file(S, width):
    f = Registers(width=width)
    g = S.settle_int("g", 0, 7)
    k = S.pick("k", [0, 1, 7, 15, 30, 31])
    v = S.int("v", 0, 2 ** width - 1)
    f[g][k].value = v
    zero = "0o000000 "
    text = ""
    for i in range(8):
        text = text + "[%d] " % i
        if i == g:
            text = text + zero * k + cell(S, v, width) + " " + \
                zero * (31 - k)
        else:
            text = text + zero * 32
        text = text + "\n"
    S.check("every group in order", repr(f) == text)


def print_bank(S, at):
    b = MemoryBank()
    v = S.int("v", 0, 2 ** 48 - 1)
    w = S.int("w", 0, 2 ** 48 - 1)
    b[at] = w
    b[at] = v
    b[2047] = tag(3, 48)
    want = [0] * 2048
    want[2047] = tag(3, 48)
    want[at] = v if at < 2047 else tag(3, 48)
    text = "".join(["0o%016o " % x for x in want[:at]])
    text = text + "0o" + octal(S, want[at], 16, 16) + " "
    text = text + "".join(["0o%016o " % x for x in want[at + 1:]])
    S.check("every word in order", repr(b) == text)


# -- C39 --------------------------------------------------------------------

def inside(S, few, many):
    """The lines few appear among many, in this order."""
    i = 0
    for x in few:
        while i < len(many) and not S.fork(many[i] == x):
            i += 1
        if i == len(many):
            return False
        i += 1
    return True


def said(lines):
    """Lines that do not hold object addresses."""
    return [x for x in lines if "definition" not in x]


OPS = ["TX", "FOO", "ASSIGN", ""]


def sources(S, sizes, ops, alphabet, stars=True):
    names = ["m.src", "b.src", "x.src"][:len(sizes)]
    for f, (name, n) in enumerate(zip(names, sizes)):
        lines = []
        for i in range(n):
            t = "%d_%d" % (f, i)
            label = S.str("label" + t, 1, 1, alphabet)
            op = S.pick("op" + t, ops)
            col8 = S.str("col8" + t, 1, 1, " *") if stars else " "
            lines.append(make_card(" ", col8, label, op)["text"] + "\n")
            if S.fork(S.bool("remark" + t)):
                lines.append("# remark\n")
        S.file(name, lines)
    return names


FLAGS = {"check-instructions": [["-c"], ["-i"], ["-u"]],
         "parse": [[]], "list-symbols": [[]], "check-symbols": [[], ["-c"]],
         "find-symbols": [["-b", "A"], ["-e", "A"]],
         "list-instructions": [["TX"], ["-D", "TX"]], "listing": [[]]}


def verbose_tool(S, tool, more, sizes, alphabet="AB a"):
    """The same run with and without the option."""
    names = sources(S, sizes, OPS, alphabet)
    pre = S.pick("flags", FLAGS[tool])
    opts = [x for x in pre if x.startswith("-")]
    rest = [x for x in pre if not x.startswith("-")]
    plain = S.tool(tool, opts + rest + names)
    kept = None
    if tool == "listing":
        kept = [S.read_lines(n.split(".")[0] + ".lst") for n in names]
    again = S.tool(tool, opts + more.split() + rest + names)
    S.check("both run", plain.exc is None and again.exc is None)
    if tool == "listing":
        now = [S.read_lines(n.split(".")[0] + ".lst") for n in names]
        ok = True
        for a, b in zip(kept, now):
            if a is None or b is None or len(a) != len(b):
                ok = False
                break
            for x, y in zip(a, b):
                ok = S.And(ok, x == y)
        S.check("same listing", ok)
    S.check("same output lines", inside(S, plain.out, again.out))
    S.check("same messages", inside(S, said(plain.err), said(again.err)))
    if tool in ("check-instructions", "parse"):
        S.check("same total", len(plain.out) > 0 and len(again.out) > 0 and
                again.out[-1] == plain.out[-1])


def verbose_deck(S, kind, lens, file):
    lines = []
    for i, n in enumerate(lens):
        m = S.settle_int("m%d" % i, 0, n)
        t = S.str("l%d" % i, m, m, TEXT) if m else ""
        if file:
            S.assume(S.Not(t.startswith("$")))
        if m > 1:
            S.assume(t[1:2] == "7")
        lines.append(t + "\n")
    if file:
        S.file("main.src", lines + ["$one.src\n"])
        S.file("one.src", ["# x\n", "ABC\n"])
        a = DECKS[kind](file="main.src")
        b = DECKS[kind](file="main.src", verbose=True)
    else:
        a = DECKS[kind](lines=list(lines))
        b = DECKS[kind](lines=list(lines), verbose=True)
    S.check("same number of cards", len(a.cards) == len(b.cards))
    if len(a.cards) != len(b.cards):
        return
    ok = True
    for x, y in zip(a.cards, b.cards):
        ok = S.And(ok, x.line == y.line, x.linenum == y.linenum,
                   x.filename == y.filename, x.fields == y.fields,
                   x.record == y.record)
    S.check("same cards", ok)


def flat(symtab):
    out = []
    for tag in symtab:
        for seg in symtab[tag]:
            for sub in symtab[tag][seg]:
                for typ in symtab[tag][seg][sub]:
                    d = symtab[tag][seg][sub][typ]
                    out.append((tag, seg, sub, typ, d["file"], d["line"],
                                d["tagtype"]))
    return out


def verbose_table(S, n, alphabet, ops):
    names = sources(S, [n], ops, alphabet)
    a, ea = buildSymbolTable(names[0], {})
    b, eb = buildSymbolTable(names[0], {}, verbose=True)
    S.check("same number of errors", ea == eb)
    fa, fb = flat(a), flat(b)
    S.check("same number of definitions", len(fa) == len(fb))
    ok = True
    for x, y in zip(fa, fb):
        ok = S.And(ok, *[p == q for p, q in zip(x, y)])
    S.check("same definitions", ok)
    for c in (False, True):
        ra = checkSymbolTable(a, complexOnlyError=c)
        rb = checkSymbolTable(b, verbose=True, complexOnlyError=c)
        S.check("same symbols reported", len(ra) == len(rb) and
                S.And(True, *[x == y for x, y in zip(ra, rb)]))


# -- C40 --------------------------------------------------------------------

def failed(S, run):
    S.check("refused", run.exc is not None and
            isinstance(run.exc, SystemExit) and
            run.exc.code is not None and run.exc.code != 0)


SOURCE_TOOLS = {"check-instructions": [], "parse": [], "list-symbols": [],
                "check-symbols": [], "find-symbols": ["A"],
                "list-instructions": ["TX"], "listing": [], "genpages": []}


def no_source(S, tool):
    """Without a source every tool ends with an error."""
    failed(S, S.tool(tool, []))


def missing_source(S, tool, size):
    """A source that does not exist, alone or after one that does, or
    included by it."""
    card = S.str("card", size, size, TEXT)
    S.assume(S.And(S.Not(card.startswith("$")), card[1:2] == "7"))
    where = S.pick("where", ["alone", "last", "included"]
                   if tool != "genpages" else ["alone"])
    gone = S.pick("name", ["a.src", "gone.src", "b_c.d.src"])
    S.file("main-file.src", [card + "\n"] +
           (["$" + gone + "\n"] if where == "included" else []))
    args = {"alone": [gone], "last": ["main-file.src", gone],
            "included": ["main-file.src"]}[where]
    run = S.tool(tool, SOURCE_TOOLS[tool] + args)
    failed(S, run)
    S.check("not created", S.read_lines(gone) is None)
    if tool == "listing" and where != "last":
        S.check("no listing", S.read_lines("main-file.lst") is None)
    got = S.read_lines("main-file.src")
    S.check("sources left alone", len(got) >= 1 and got[0] == card)


def bad_opcode(S, size):
    """The instruction lister refuses a mnemonic it does not know."""
    from props import opspec
    op = ["", "", "", "T", "WO"][size] + \
        S.str("op", min(size, 2), min(size, 2), "ABTX9tx")
    S.assume(S.And(True, *[op != m for m in opspec.KNOWN]))
    tail = S.pick("tail", ["", ",", ",9"])
    S.file("f0.src", [make_card(" ", " ", "", "TX")["text"] + "\n"])
    run = S.tool("list-instructions", [op + tail, "f0.src"])
    failed(S, run)
    S.check("nothing listed", run.out == [])


def odd_opcode(S):
    """Mnemonics are taken literally: case, blanks and commas count."""
    op = S.pick("op", ["TX ", " TX", "tx", "T X", "Tx", "", " ", "TX;9",
                       "TX.9", "BA TX", ",TX", "TX ,9", "TXTX"])
    label = S.str("label", 1, 1, "AB ")
    S.file("f0.src", [make_card(" ", " ", label, "TX")["text"] + "\n"])
    run = S.tool("list-instructions", [op, "f0.src"])
    failed(S, run)
    S.check("nothing listed", run.out == [])


def bad_numbers(S, la, lb):
    """The line-number generator refuses more than six digits."""
    a = S.str("a", la, la, "0123456789")
    b = S.str("b", lb, lb, "0123456789")
    run = S.tool("genlines", [a, b])
    failed(S, run)
    S.check("no lines", run.out == [])


def one_number(S):
    a = S.str("a", 6, 1, "0123456789")
    failed(S, S.tool("genlines", [a]))
