"""Command-line tools (C29, C30) and the character set (C31)."""
from h800 import instructions
from h800.charset import CHARSET
from props.symtab import Ref, make_card, reference
from props import opspec

DIGITS = "0123456789"
SOURCES = ["m.src", "b.src", "x.src"]
TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"


# -- C29 --------------------------------------------------------------------

def dec(S, name, n):
    """A decimal number of exactly n digits (leading zeros allowed):
    (text, value)."""
    v = S.int(name, 0, 10 ** n - 1)
    return "%0*d" % (n, v), v


def is_number(S, text, v, width):
    """text is v in decimal, zero-padded to width columns."""
    if not S.fork(S.And(len(text) == width, text.isdigit())):
        return False
    return int(text) == v


def numbering(S, la, lb, most, step=None, startcol=None, endcol=None):
    """Numbers of la and lb digits, at most `most` lines."""
    a, av = dec(S, "start", la)
    b, bv = dec(S, "end", lb)
    argv = [a, b]
    st = 1
    if step is not None:
        t, st = dec(S, "step", step)
        S.assume(st >= 1)
        argv.append(t)
    S.assume(bv - av < st * most)
    sc, ec = 2, 7
    if startcol is not None:
        sc = S.settle_int("startcol", startcol[0], startcol[1])
        argv.append(str(sc))
    if endcol is not None:
        ec = S.settle_int("endcol", endcol[0], endcol[1])
        argv.append(str(ec))
    # at least four digits and at least the digits of the end number
    width = max(4, lb)
    S.assume(ec - sc + 1 >= width)
    out = S.tool("genlines", argv)
    S.check("no error", out.exc is None)
    n = 0
    v = av
    while n < most and S.fork(v <= bv):
        if n >= len(out.out):
            S.check("one line per number", False)
            return
        line = out.out[n]
        S.check("line length", len(line) == ec + 1)
        S.check("blank before the number", line[:sc - 1] == " " * (sc - 1))
        S.check("the number", is_number(S, line[sc - 1:sc - 1 + width], v,
                                        width))
        S.check("blank after the number", line[sc - 1 + width:] ==
                " " * (ec + 1 - (sc - 1 + width)))
        n += 1
        v = v + st
    S.check("number of lines", len(out.out) == n)


# -- C30 --------------------------------------------------------------------

def known(S, text):
    return S.Or(False, *[text == m for m in opspec.KNOWN])


MIX = ["TX", "TX,9", "FOO", "FOO , A", "", "SETLOC,B", "tx"]


def a_card(S, tag, n, ops=None, plain=False):
    """A card with an arbitrary operation: of n columns, or from ops."""
    col1 = S.pick("col1" + tag, [" ", "R"]) if ops and not plain else " "
    col8 = S.str("col8" + tag, 1, 1, TEXT if not ops else " *")
    op = S.pick("op" + tag, ops) if ops else S.str("op" + tag, n, n, TEXT)
    return make_card(col1, col8, "", op)


def wrong_cards(S, cards):
    out = []
    for i, c in enumerate(cards):
        if c["col1"] in ("P", "R", "L"):
            continue
        if S.fork(c["col8"] == "*"):
            continue
        op = c["op"].strip()
        ins = op
        k = op.find(",")
        if S.fork(k >= 0):
            ins = op[:k].strip()
        if S.fork(ins == ""):
            continue
        if S.fork(S.Not(known(S, ins))):
            out.append((ins, i + 1, c["text"]))
    return out


def total(n):
    return "1 error encountered." if n == 1 else \
        "%d errors encountered." % n


def error_lines(S, lines, wrong, name="prog.src"):
    """The lines of a report are two per wrong card, in order."""
    ok = len(lines) == 2 * len(wrong)
    if not ok:
        return False
    for j, (ins, n, text) in enumerate(wrong):
        ok = S.And(ok,
                   lines[2 * j] == "*** ERROR: Invalid instruction \"" + ins
                   + "\":",
                   lines[2 * j + 1] == "File " + name + ", line " + str(n) +
                   ": " + text)
    return ok


def reports(S, tool, cards, flags):
    S.file("prog.src", [c["text"] + "\n" for c in cards])
    wrong = wrong_cards(S, cards)
    run = S.tool(tool, flags + ["prog.src"])
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    out = run.out
    if tool == "parse":
        S.check("source lines", len(out) >= 2 and
                out[-2] == "Source lines: %d" % len(cards))
        S.check("total", out[-1] == total(len(wrong)))
        S.check("exactly the invalid cards",
                error_lines(S, [x for x in out[:-2] if len(x) > 0], wrong))
    else:
        S.check("total", len(out) >= 1 and out[-1] == total(len(wrong)))
        S.check("exactly the invalid cards",
                error_lines(S, out[:-1], wrong))


def check_one(S, tool, n, flags=()):
    """One card with an arbitrary operation of n columns."""
    reports(S, tool, [a_card(S, "", n)], list(flags))


def check_mnemonic(S, tool, part, parts):
    """Every known mnemonic, plain and with operands, is accepted."""
    ms = sorted(opspec.KNOWN)[part::parts]
    m = S.pick("m", ms)
    tail = S.str("tail", 2, 2, TEXT)
    S.assume(S.Or(tail[0:1] == ",", tail[0:1] == " "))
    S.assume(S.Or(tail[0:1] == ",", tail[1:2] == " ", tail[1:2] == ","))
    reports(S, tool, [make_card(" ", " ", "", m + tail)], [])


def check_many(S, tool, n, ops, flags=()):
    reports(S, tool, [a_card(S, str(i), 0, ops) for i in range(n)],
            list(flags))


def check_files(S, tool):
    """Several files add up."""
    one = S.pick("one", ["TX", "FOO"])
    two = S.pick("two", ["TX", "BAR"])
    a = make_card(" ", " ", "", one)
    b = make_card(" ", " ", "", two)
    S.file("a.src", [a["text"] + "\n"])
    S.file("b.src", ["#\n", b["text"] + "\n"])
    run = S.tool(tool, ["a.src", "b.src"])
    n = (one == "FOO") + (two == "BAR")
    S.check("total over files", run.exc is None and len(run.out) > 0 and
            run.out[-1] == total(n))
    S.check("names the file of the first", (one == "FOO") == (
        "File a.src, line 1: " + a["text"] in run.out))
    S.check("names the file of the second", (two == "BAR") == (
        "File b.src, line 2: " + b["text"] in run.out))


def check_set(S, tool, sizes, ops, tree=False, flags=(), again=False):
    """Several sources, or a source that includes another: every invalid
    card is reported once, in order, under its own file and line."""
    names = SOURCES[:len(sizes)]
    per = []
    for name, n in zip(names, sizes):
        per.append([a_card(S, name[0] + "_%d" % i, 0, ops, True)
                    for i in range(n)])
    texts = [[c["text"] + "\n" for c in cards] for cards in per]
    at = 0
    if tree:
        at = S.pick("at", range(sizes[0] + 1))
        texts[0].insert(at, "$" + names[1] + "\n")
    wrong = []
    for name, cards in zip(names, per):
        wrong.append([(name, w) for w in wrong_cards(S, cards)])
    if tree:
        mine = [(f, (i, n if n <= at else n + 1, t))
                for f, (i, n, t) in wrong[0]]
        wrong = [[x for x in mine if x[1][1] <= at] + wrong[1] +
                 [x for x in mine if x[1][1] > at]]
    wrong = sum(wrong, [])
    for name, t in zip(names, texts):
        S.file(name, t)
    given = names[:1] if tree else names
    lines = sum(sizes)
    if again:
        wrong = wrong + [x for x in wrong if tree or x[0] == names[0]]
        given = given + given[:1]
        lines += sum(sizes) if tree else sizes[0]
    run = S.tool(tool, list(flags) + given)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    S.check("total of all sources", len(run.out) > 0 and
            run.out[-1] == total(len(wrong)))
    if tool == "parse":
        S.check("source lines", "Source lines: %d" % lines in run.out)
    got = [x for x in run.out
           if x.startswith("*** ERROR") or x.startswith("File ")]
    ok = len(got) == 2 * len(wrong)
    if ok:
        for j, (f, (ins, n, text)) in enumerate(wrong):
            ok = S.And(ok, error_lines(S, got[2 * j:2 * j + 2],
                                       [(ins, n, text)], f))
    S.check("the invalid cards of all sources", ok)


def list_set(S, want, sizes, ops, details, tree=False, again=False):
    """The lister over several sources or an included one."""
    names = SOURCES[:len(sizes)]
    rows, texts = [], []
    at = S.pick("at", range(sizes[0] + 1)) if tree else 0
    for k, (name, n) in enumerate(zip(names, sizes)):
        mine, text = [], []
        for i in range(n):
            c = a_card(S, "%d_%d" % (k, i), 0, ops, True)
            line = i + 1
            if tree and k == 0 and i >= at:
                line += 1
            text.append(c["text"] + "\n")
            if c["col1"] in ("P", "R", "L") or S.fork(c["col8"] == "*"):
                continue
            if S.fork(matches(S, c["op"].strip().replace(" ", ""), want)):
                mine.append((name, line, c["text"]))
        rows.append(mine)
        texts.append(text)
    if tree:
        texts[0].insert(at, "$ " + names[1] + "\n")
        rows = [[x for x in rows[0] if x[1] <= at] + rows[1] +
                [x for x in rows[0] if x[1] > at]]
    for name, t in zip(names, texts):
        S.file(name, t)
    given = names[:1] if tree else names
    exp = sum(rows, [])
    if again:
        given = given + given[:1]
        exp = exp + rows[0]
    run = S.tool("list-instructions", (["-D"] if details else []) +
                 [want] + given)
    S.check("runs", run.exc is None)
    S.check("number of cards listed", len(run.out) == len(exp))
    if len(run.out) != len(exp):
        return
    for line, (f, k, text) in zip(run.out, exp):
        S.check("card listed", line == (f + " " * 43 + " %6d " % k + text
                                        if details else text))


def parse_labels(S, n):
    """The parser's total adds symbol errors and invalid cards."""
    cards = []
    for i in range(n):
        label = S.str("label%d" % i, 2, 2, "AL,")
        op = S.pick("op%d" % i, ["TX", "FOO"])
        cards.append(make_card(" ", " ", label, op))
    S.file("prog.src", [c["text"] + "\n" for c in cards])
    for i, c in enumerate(cards):
        c["file"], c["line"] = "prog.src", i + 1
    ref = Ref()
    reference(S, ref, "prog", cards)
    wrong = wrong_cards(S, cards)
    run = S.tool("parse", ["prog.src"])
    S.check("total with symbol errors", run.exc is None and
            run.out[-1] == total(len(wrong) + ref.errors))


def listing(S, want, n, ops=None, size=0, details=False):
    """The lister prints the matching cards, in order."""
    cards = []
    for i in range(n):
        c = a_card(S, str(i), size, ops)
        if not ops:
            S.assume(S.Not("," in c["op"]))
        cards.append(c)
    S.file("prog.src", [c["text"] + "\n" for c in cards])
    exp = []
    for i, c in enumerate(cards):
        if c["col1"] in ("P", "R", "L") or S.fork(c["col8"] == "*"):
            continue
        op = c["op"].strip().replace(" ", "")
        if S.fork(matches(S, op, want)):
            exp.append((i + 1, c["text"]))
    run = S.tool("list-instructions",
                 (["-D"] if details else []) + [want, "prog.src"])
    S.check("runs", run.exc is None)
    S.check("number of cards listed", len(run.out) == len(exp))
    if len(run.out) != len(exp):
        return
    for line, (k, text) in zip(run.out, exp):
        if details:
            S.check("file, line and card",
                    line == "prog.src" + " " * 40 + " %6d " % k + text)
        else:
            S.check("card listed", line == text)


def matches(S, op, want):
    """want: a mnemonic (any operands), a mnemonic with a comma and operand
    (that operand), or with a bare comma (any operand)."""
    if "," not in want:
        return S.Or(op == want, op.startswith(want + ","))
    if want.endswith(","):
        return op.startswith(want)
    return op == want


# -- C31 --------------------------------------------------------------------

# Table I, Appendix E of the Programmers Reference Manual (high-speed
# printer), as transcribed in h800/charset.py; None marks an unprintable code.
TABLE = list("0123456789'=:  &+ABCDEFGHI;.)%\u2588 -JKLMNOPQR#$") + [None] + \
    list("\"   /STUVWXYZ@,(\n  ")


def charset_table(S):
    c = S.int("code", 0, 63)
    want = TABLE[S.settle(c)]
    S.check("documented character", CHARSET[c] == want)


def charset(S):
    c = S.int("code", 0, 63)
    d = S.int("other", 0, 63)
    S.check("every code has an entry", c in CHARSET)
    x, y = CHARSET[c], CHARSET[d]
    if S.fork(c <= 9):
        S.check("digits", x == chr(48 + S.settle(c)))
    for base, first, last in ((17, "A", "I"), (33, "J", "R"), (50, "S",
                                                               "Z")):
        k = ord(last) - ord(first)
        if S.fork(S.And(c >= base, c <= base + k)):
            S.check("letters", x == chr(ord(first) + S.settle(c) - base))
    if S.fork(c != d):
        if x is not None and x != " " and x != "":
            S.check("no two codes share a character", x != y)
    S.check("one character each", x is None or len(x) == 1)


def charset_size(S):
    c = S.int("code", -300, 300)
    S.check("exactly the six-bit codes",
            S.Iff(c in CHARSET, S.And(c >= 0, c <= 63)))
