"""Punch cards, ARGUS cards and decks (C20-C24)."""
from h800.arguscard import Card
from h800.arguscard import Deck as ArgusDeck
from h800.punchcard import Deck, PunchCard

START = [1, 2, 8, 9, 20, 33, 47, 61, 76, 81]
WIDTH = [1, 6, 1, 11, 13, 14, 14, 15, 5, 40]
NAMES = ["column1", "lognum", "column8", "label", "operation", "operand1",
         "operand2", "operand3", "misc", "remarks"]
LAYOUT = list(zip(START, WIDTH))
CLASSES = {"punch": PunchCard, "argus": Card}
DECKS = {"punch": Deck, "argus": ArgusDeck}
TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"


def a_line(S, name, lo, hi, nl=True):
    """A card image of lo..hi columns; (line, line without newline)."""
    text = S.str(name, hi, lo, TEXT)
    if nl and S.fork(S.bool(name + "_nl")):
        return text + "\n", text
    return text, text


def image(S, modes, n, first=TEXT):
    """A card image of n columns. modes says, per field: f arbitrary text,
    x arbitrary text beginning with a non-blank, - blank."""
    text = ""
    for k in range(10):
        w = max(0, min(WIDTH[k], n - START[k] + 1))
        m = modes[k]
        if w == 0 or m == "-":
            part = " " * w
        else:
            part = S.str(NAMES[k], w, w, first if k == 0 else TEXT)
            if m == "x":
                S.assume(S.And(part[0:1] != " ", part[0:1] != "\t"))
        text = text + part
    if n > 120:
        text = text + S.str("beyond", n - 120, n - 120, TEXT)
    return text


NOT_REMARKS = "".join([c for c in TEXT if c not in "PRL#"])
NOT_COMMENT = "".join([c for c in TEXT if c != "#"])


def column(text, k):
    """Field number k of the text."""
    return text[START[k] - 1:START[k] - 1 + WIDTH[k]]


def stripped_is(S, got, field):
    """got is the field without surrounding blanks, None if it is blank."""
    s = field.strip()
    if got is None:
        return s == ""
    return S.And(s != "", got == s)


# -- C20 --------------------------------------------------------------------

def raw_fields(S, kind, modes, lo, hi):
    n = S.settle_int("columns", lo, hi)
    text = image(S, modes, n, NOT_COMMENT)
    line = text + "\n" if S.fork(S.bool("newline")) else text
    card = CLASSES[kind](line)
    S.check("line without newline", card.line == text)
    S.check("layout", card.layout == LAYOUT)
    got = card.fields
    S.check("number of fields", len(got) == 10)
    for k in range(10):
        S.check("field columns", got[k] == column(text, k))
    S.check("fields are the first 120 columns", "".join(got) == text[:120])
    S.check("text form", str(card) == text)


def custom_layout(S, n, top, width, lens):
    """Any ascending list of n start columns beginning anywhere, any card
    width that reaches the last start, or ends right before it."""
    starts = []
    prev = 0
    for i in range(n):
        c = S.int("c%d" % i, 1, top)
        S.assume(c > prev)
        c = S.settle(c)
        starts.append(c)
        prev = c
    w = S.int("width", 1, width)
    S.assume(w >= prev - 1)
    w = S.settle(w)
    names = ["f%d" % i for i in range(n)]
    m = S.settle_int("columns", lens[0], lens[1])
    text = S.str("line", m, m, TEXT) if m else ""
    S.assume(S.Not(text.startswith("#")))
    card = PunchCard(text, width=w, fields=starts, fieldnames=names)
    ends = starts[1:] + [w + 1]
    S.check("layout", card.layout ==
            [(starts[i], ends[i] - starts[i]) for i in range(n)])
    S.check("number of fields", len(card.fields) == n)
    for i in range(n):
        S.check("field columns",
                card.fields[i] == text[starts[i] - 1:ends[i] - 1])
    S.check("partition", "".join(card.fields) == text[starts[0] - 1:w])
    for i in range(n):
        f = text[starts[i] - 1:ends[i] - 1]
        S.check("stripped", stripped_is(S, card.strippedFields[i], f))
        S.check("record", stripped_is(S, card.record[names[i]], f))


def two_cards(S):
    """Cards are independent: building one does not disturb another."""
    one = image(S, "xx-x------", 17, NOT_COMMENT)
    two = S.str("two", 3, 0, TEXT)
    a = PunchCard(one)
    b = Card(two, linenum=7)
    S.check("first card keeps its line", a.line == one)
    S.check("second card", b.line == two)
    for k in range(10):
        S.check("first card keeps its fields", a.fields[k] == column(one, k))
        S.check("first card keeps its record",
                stripped_is(S, a.record[NAMES[k]], column(one, k)))
    S.check("first card has its own record", "linenum" not in a.record)


INK = "".join([c for c in TEXT if c not in " \t"])
SHAPES = [([1, 3, 6], 8, ["a", "b", "c"]), ([1, 3, 6], 10, ["a", "b", "c"]),
          ([1, 4, 6], 8, ["a", "b", "c"]), ([1, 3, 6], 8, ["c", "a", "b"]),
          ([2, 5], 9, ["a", "b"])]


def other_layouts(S, n, cls):
    """Cards of several layouts one after the other: each has its own."""
    made = []
    for i in range(n):
        fields, w, names = S.pick("layout%d" % i, SHAPES)
        text = S.str("text%d" % i, 10, 10, INK)
        S.assume(S.Not(text.startswith("#")))
        made.append((PunchCard(text, width=w, fields=list(fields),
                               fieldnames=list(names)),
                     text, fields, w, names))
    if cls:
        line = image(S, "xx-x------", 17, NOT_COMMENT)
        card = CLASSES[cls](line)
        S.check("default layout", card.layout == LAYOUT)
        for k in range(10):
            S.check("default fields", card.fields[k] == column(line, k))
    for card, text, fields, w, names in made:
        ends = fields[1:] + [w + 1]
        S.check("layout of its own", card.layout ==
                [(fields[i], ends[i] - fields[i])
                 for i in range(len(fields))])
        S.check("number of fields", len(card.fields) == len(fields))
        for i in range(len(card.fields)):
            f = text[fields[i] - 1:ends[i] - 1]
            S.check("fields of its own", card.fields[i] == f)
            S.check("record of its own",
                    stripped_is(S, card.record[names[i]], f))


# -- C21 --------------------------------------------------------------------

def stripped(S, kind, modes, lo, hi):
    n = S.settle_int("columns", lo, hi)
    text = image(S, modes, n,
                 NOT_REMARKS if kind == "argus" else NOT_COMMENT)
    num = S.int("linenum", 0, 99999)
    name = [None, "src"][n % 2]
    card = CLASSES[kind](text, linenum=num, filename=name)
    S.check("number of stripped fields", len(card.strippedFields) == 10)
    for k in range(10):
        f = column(text, k)
        S.check("stripped field", stripped_is(S, card.strippedFields[k], f))
        S.check("record", stripped_is(S, card.record[NAMES[k]], f))
    S.check("line number", card.linenum == num)
    S.check("file name", card.filename == name)
    if "linenum" in card.record:
        S.check("record has the line number",
                S.And(num != 0, card.record["linenum"] == num))
    else:
        S.check("record without line number", num == 0)
    names = NAMES + ["linenum"] + \
        (["instruction"] if kind == "argus" else [])
    S.check("nothing else in the record",
            all([x in names for x in card.record]))
    S.check("no comment", not card.isComment and card.comment is None)


def comment(S, kind, modes, lo, hi):
    n = S.settle_int("columns", lo, hi)
    text = image(S, modes, n)
    line = text + "\n" if S.fork(S.bool("newline")) else text
    num = S.int("linenum", 1, 99999)
    card = CLASSES[kind](line, linenum=num)
    if S.fork(text.startswith("#")):
        S.check("is a comment", card.isComment)
        S.check("comment text", card.comment == text)
    else:
        S.check("is not a comment", not card.isComment)
        S.check("no comment text", card.comment is None)
    S.check("line", card.line == text)
    S.check("line number", card.linenum == num)


# -- C22 --------------------------------------------------------------------

def remarks_card(S, modes, lo, hi):
    n = S.settle_int("columns", max(1, lo), hi)
    text = image(S, modes, n, "PRL")
    card = Card(text + ["", "\n"][n % 2], linenum=3)
    S.check("no code fields", card.label is None and card.location is None
            and card.operation is None and card.operand1 is None
            and card.operand2 is None and card.operand3 is None
            and card.addressa is None and card.addressb is None
            and card.addressc is None and card.sequence is None
            and card.instruction is None)
    got = card.remarks
    want = text[8:].strip()
    S.check("remarks", want == "" if got is None else got == want)
    S.check("column 1", stripped_is(S, card.column1, text[0:1]))
    S.check("lognum", stripped_is(S, card.lognum, column(text, 1)))
    S.check("column 8", stripped_is(S, card.column8, column(text, 2)))
    S.check("record", card.record["label"] is None and
            card.record["operation"] is None and
            card.record["operand1"] is None and
            card.record["operand2"] is None and
            card.record["operand3"] is None and
            card.record["misc"] is None and
            card.record["instruction"] is None)


def code_card(S, modes, lo, hi):
    n = S.settle_int("columns", lo, hi)
    text = image(S, modes, n, NOT_REMARKS)
    card = Card(text + ["", "\n"][n % 2])
    got = [card.column1, card.lognum, card.column8, card.label,
           card.operation, card.operand1, card.operand2, card.operand3,
           card.sequence, card.remarks]
    for k in range(10):
        S.check("field", stripped_is(S, got[k], column(text, k)))
    alias = [card.location, card.addressa, card.addressb, card.addressc]
    for k, x in zip([3, 5, 6, 7], alias):
        S.check("alias", stripped_is(S, x, column(text, k)))
    op = card.operation
    ins = card.instruction
    if op is None:
        S.check("no instruction", ins is None)
    else:
        S.check("instruction", S.And(ins is not None,
                                     ins == mnemonic(S, op)))


def mnemonic(S, op):
    p = op.find(",")
    if S.fork(p < 0):
        return op
    return op[:p].strip()


def mnemonic_exact(S, lo, hi, alphabet):
    """The operation field character by character."""
    n = S.settle_int("n", lo, hi)
    op = S.str("op", n, n, alphabet) if n else ""
    card = Card(" " * 19 + op)
    if S.fork(op.strip() == ""):
        S.check("blank operation", card.operation is None and
                card.instruction is None)
        return
    S.check("operation", card.operation == op.strip())
    ins = card.instruction
    S.check("instruction present", ins is not None)
    if ins is None:
        return
    # independent description of "up to the first comma, stripped"
    S.check("no comma in the instruction", S.Not("," in ins))
    S.check("no blank at the ends", ins == ins.strip())
    s = op.strip()
    if S.fork(S.Not("," in s)):
        S.check("whole operation", ins == s)
    else:
        k = S.settle(s.find(","))
        S.check("up to the comma", s[:k].strip() == ins)


# -- C23 --------------------------------------------------------------------

def deck(S, kind, lens, alphabet=TEXT):
    """One line per entry of lens, of any length from 0 to that entry."""
    n = len(lens)
    lines, texts = [], []
    for i in range(n):
        m = S.settle_int("m%d" % i, 0, lens[i])
        t = S.str("l%d" % i, m, m, alphabet) if m else ""
        if m > 1:           # the rest of the log number columns is plain
            S.assume(t[1:2] == "7")
        lines.append(t + "\n" if i % 2 == 0 else t)
        texts.append(t)
    d = DECKS[kind](lines=list(lines),
                    verbose=S.pick("verbose", [False, True]))
    want = [i for i in range(n) if S.fork(S.Not(texts[i].startswith("#")))]
    cards = d.cards
    S.check("one card per line", len(cards) == len(want))
    S.check("field lists", len(d.fields) == len(want) and
            len(d.strippedFields) == len(want) and
            len(d.records) == len(want))
    if len(cards) != len(want):
        return
    for j, i in enumerate(want):
        S.check("card text", cards[j].line == texts[i])
        S.check("card position", cards[j].linenum == i + 1)
        S.check("fields of the card", cards[j].fields is d.fields[j] or
                d.fields[j] == cards[j].fields)
        S.check("stripped fields of the card",
                d.strippedFields[j] is cards[j].strippedFields or
                d.strippedFields[j] == cards[j].strippedFields)
        S.check("record of the card", d.records[j] is cards[j].record or
                d.records[j] == cards[j].record)
        S.check("first field", d.fields[j][0] == texts[i][0:1])
        S.check("record position", d.records[j]["linenum"] == i + 1)
    if n:
        S.check("text of the deck",
                str(d) == "\n".join([texts[i] for i in want]))
    if kind == "argus":
        log_section(S, d, [texts[i] for i in want])


def two_decks(S, kind):
    """Two decks, one after the other; neither depends on the other."""
    sets = []
    for k in ("a", "b"):
        m = S.settle_int("lines" + k, 0, 2)
        sets.append([S.str("%s%d" % (k, i), 1, 1, "LR#") + "      " +
                     S.pick("col8%s%d" % (k, i), [" ", "*"]) + k.upper() +
                     str(i) for i in range(m)])
    decks = [DECKS[kind](lines=list(x)) for x in sets]
    for d, lines in zip(decks, sets):
        want = [(t, i + 1) for i, t in enumerate(lines)
                if S.fork(S.Not(t.startswith("#")))]
        S.check("one card per line", len(d.cards) == len(want))
        if len(d.cards) != len(want):
            return
        S.check("cards", S.And(True, *[
            S.And(c.line == t, c.linenum == n)
            for c, (t, n) in zip(d.cards, want)]))
        S.check("lists", len(d.records) == len(want) and
                len(d.fields) == len(want))
        if kind == "argus":
            log_section(S, d, [t for t, _ in want])


def include_names(S, kind):
    """Include lines name files of any spelling."""
    name = S.pick("name", ["one.src", "a#b.src", "a$b", "A,B.src", "x-1_2",
                           "x.y.z.src", "ONE.SRC", "1", "a'b", "+inc"])
    pad = S.pick("pad", ["", " ", "\t", "   "])
    tail = S.pick("tail", ["", " ", "  REMARK"])
    t = S.str("t", 1, 1, "AZ0 ")
    u = S.str("u", 1, 1, "AZ0 ")
    S.file(name, [t + "\n"])
    S.file("main.src", ["$" + pad + name + tail + "\n", u + "\n"])
    d = DECKS[kind](file="main.src")
    S.check("number of cards", len(d.cards) == 2)
    if len(d.cards) == 2:
        a, b = d.cards
        S.check("cards in place", S.And(
            a.line == t, a.filename == name, a.linenum == 1,
            b.line == u, b.filename == "main.src", b.linenum == 2))


def read_again(S, kind):
    """A file read, changed and read again: the deck is of the lines the
    file has then, and the first deck keeps its cards."""
    texts = [S.str("t%d" % i, 1, 1, "AZ0 ") for i in range(4)]
    shape = S.pick("shape", ["same", "longer", "include", "included"])
    S.file("one.src", [texts[2] + "\n"])
    S.file("main.src", [texts[0] + "\n", "$one.src\n"])
    first = DECKS[kind](file="main.src")
    want1 = [(texts[0], "main.src", 1), (texts[2], "one.src", 1)]
    if shape == "same":
        S.file("main.src", [texts[1] + "\n", "$one.src\n"])
        want2 = [(texts[1], "main.src", 1), (texts[2], "one.src", 1)]
    elif shape == "longer":
        S.file("main.src", [texts[1] + "\n", texts[3] + "\n"])
        want2 = [(texts[1], "main.src", 1), (texts[3], "main.src", 2)]
    elif shape == "include":
        S.file("main.src", ["$one.src\n", "$one.src\n"])
        want2 = [(texts[2], "one.src", 1)] * 2
    else:
        S.file("one.src", ["#\n", texts[3] + "\n"])
        want2 = [(texts[0], "main.src", 1), (texts[3], "one.src", 2)]
    second = DECKS[kind](file="main.src")
    for d, want in ((first, want1), (second, want2)):
        S.check("number of cards", len(d.cards) == len(want))
        if len(d.cards) == len(want):
            S.check("cards in place", S.And(True, *[
                S.And(c.line == t, c.filename == f, c.linenum == k)
                for c, (t, f, k) in zip(d.cards, want)]))


def long_deck(S, kind, n, file):
    """One arbitrary line, and one comment, anywhere in a deck of n lines."""
    at = S.settle_int("at", 0, n - 1)
    hole = S.settle_int("hole", n - 3, n - 1)
    t = S.str("line", 2, 1, TEXT)
    if file:
        S.assume(S.Not(t.startswith("$")))
    lines = ["A%d" % i for i in range(n)]
    lines[hole] = "#"
    lines[at] = t
    nl = [x + "\n" for x in lines]
    if file:
        S.file("main.src", nl)
        d = DECKS[kind](file="main.src")
    else:
        d = DECKS[kind](lines=nl)
    gone = [i for i in range(n) if i != at and lines[i] == "#"]
    if S.fork(t.startswith("#")):
        gone.append(at)
    want = [i for i in range(n) if i not in gone]
    S.check("one card per line", len(d.cards) == len(want))
    if len(d.cards) != len(want):
        return
    ok = True
    for c, i in zip(d.cards, want):
        ok = S.And(ok, c.line == lines[i], c.linenum == i + 1)
    S.check("cards in order", ok)
    S.check("records", S.And(True, *[r["linenum"] == i + 1 for r, i in
                                     zip(d.records, want)]))


def log_section(S, d, texts):
    for t in texts:
        if S.fork(t[0:1] == "L"):
            S.check("log section", d.log_section == t[8:81].strip())
            S.check("log section column 8",
                    stripped_is(S, d.log_section_col8, t[7:8]))
            return
    S.check("no log section", d.log_section is None)
    S.check("no log section column 8", d.log_section_col8 is None)


def log_card(S, modes, lo, hi):
    """The first L card of a deck, in full width."""
    a = S.str("head", 1, 1, "R#L")
    n = S.settle_int("columns", lo, hi)
    b = image(S, modes, n, "LX#")
    c = S.pick("tail", ["", "L7     *ZZZ", "L", "A      L"])
    lines = [a, b, c]
    d = ArgusDeck(lines=lines)
    texts = [t for t in lines if S.fork(S.Not(t.startswith("#")))]
    S.check("one card per line", len(d.cards) == len(texts))
    log_section(S, d, texts)


def deck_layout(S, n):
    """A deck built for another layout gives it to its cards."""
    m = S.settle_int("m", 6, 9)
    lines = [S.str("l%d" % i, m, m, TEXT) for i in range(n)]
    for t in lines:
        S.assume(S.And(S.Not(t.startswith("#")), t[0:1] != " ",
                       t[0:1] != "\t"))
    a, b, w = S.int("a", 1, 3), S.int("b", 2, 6), S.int("w", 3, 8)
    S.assume(S.And(a < b, b <= w))
    a, b, w = S.settle(a), S.settle(b), S.settle(w)
    d = Deck(lines=lines, width=w, fields=[a, b])
    S.check("one card per line", len(d.cards) == n)
    for i in range(n):
        S.check("custom fields", S.And(
            len(d.fields[i]) == 2,
            d.fields[i][0] == lines[i][a - 1:b - 1],
            d.fields[i][1] == lines[i][b - 1:w]))


# -- C24 --------------------------------------------------------------------

INC = {"main.src": 0, "one.src": 1, "two.src": 2}


def make_file(S, name, n, targets, size, missing=False):
    """A file of n symbolic lines; each is a plain card, a comment or an
    include of one of the targets. Returns the expected cards as a list of
    (text, file, line) or include names."""
    lines, want = [], []
    for i in range(n):
        tag = "%s_%d" % (name[:2], i)
        what = S.pick(tag + "_kind", ["text"] + targets)
        if what == "text":
            m = S.pick(tag + "_n", [0, size])
            t = S.str(tag, m, m, TEXT) if m else ""
            S.assume(S.Not(t.startswith("$")))
            if m > 1:
                S.assume(t[1:2] == "7")
            if S.fork(S.Not(t.startswith("#"))):
                want.append((t, name, i + 1))
            else:
                want.append(None)
            lines.append(t)
        else:
            pad = S.pick(tag + "_pad", ["", " ", " \t"])
            rest = ""
            if pad == " ":
                rest = " " + S.str(tag + "_rest", 2, 2, " \tAx")
            lines.append("$" + pad + what + rest)
            want.append(what)
    last = S.pick(name[:2] + "_eof", ["\n", ""]) if n else ""
    text = [x + "\n" for x in lines[:-1]]
    if lines:
        t = lines[-1] + last
        if last == "" and S.fork(t == ""):
            want.pop()          # an empty last line without newline is none
        else:
            text.append(t)
    S.file(name, text)
    return want


def includes(S, kind, main, one, two, size):
    targets = (["one.src"] if one is not None else []) + \
        (["two.src"] if two is not None else [])
    want = {}
    want["main.src"] = make_file(S, "main.src", main, targets, size)
    if one is not None:
        want["one.src"] = make_file(S, "one.src", one,
                                    targets[1:], size)
    if two is not None:
        want["two.src"] = make_file(S, "two.src", two, [], size)

    def expand(name):
        out = []
        for x in want[name]:
            if x is None:
                continue
            if type(x) is tuple:
                out.append(x)
            else:
                out.extend(expand(x))
        return out

    exp = expand("main.src")
    d = DECKS[kind](file="main.src")
    cards = d.cards
    S.check("number of cards", len(cards) == len(exp))
    if len(cards) != len(exp):
        return
    for c, (t, f, n) in zip(cards, exp):
        S.check("card text", c.line == t)
        S.check("card file", c.filename == f)
        S.check("card line", c.linenum == n)
    S.check("deck lists", len(d.records) == len(exp) and
            len(d.fields) == len(exp))
    if kind == "argus":
        log_section(S, d, [t for t, f, n in exp])


def include_tree(S, kind, main, one, two):
    """Longer files: every line is a card, a comment or an include."""
    def build(name, n, kinds):
        out = []
        for i in range(n):
            tag = "%s_%d" % (name[:2], i)
            out.append((S.pick(tag + "_kind", kinds), tag))
        lines, want = [], []
        for i, (what, tag) in enumerate(out):
            if what == "card":
                t = S.str(tag, 1, 1, "A-Z0")
                want.append((t, name, i + 1))
            elif what == "comment":
                t = "#" + S.str(tag, 1, 1, "A$")
            else:
                t = "$" + what
                want.append(what)
            lines.append(t + "\n")
        if n and S.pick(name[:2] + "_eof", [False, True]):
            lines[-1] = lines[-1][:-1]
        S.file(name, lines)
        return want

    want = {"main.src": build("main.src", main, [
        "card", "comment", "one.src", "two.src"])}
    want["one.src"] = build("one.src", one, ["card", "two.src"])
    want["two.src"] = build("two.src", two, ["card"])

    def expand(name):
        out = []
        for x in want[name]:
            if type(x) is tuple:
                out.append(x)
            else:
                out.extend(expand(x))
        return out

    exp = expand("main.src")
    d = DECKS[kind](file="main.src", verbose=kind == "punch")
    S.check("number of cards", len(d.cards) == len(exp))
    if len(d.cards) != len(exp):
        return
    ok = True
    for c, (t, f, n) in zip(d.cards, exp):
        ok = S.And(ok, c.line == t, c.filename == f, c.linenum == n)
    S.check("cards in place", ok)


def include_chain(S, kind, top):
    """Each file includes the next, up to a depth of top, its own card
    before or after the include."""
    n = S.settle_int("depth", 1, top)
    after = S.pick("after", [False, True])
    head, tail = [], []
    for i in range(n):
        name = "f%d.src" % i
        t = "CARD %d" % i
        if i in (0, n - 1):
            t = S.str("t%d" % i, 1, 1, "AZ09 ") + t
        inc = ["$f%d.src\n" % (i + 1)] if i < n - 1 else []
        if after:
            S.file(name, inc + [t + "\n"])
            tail.insert(0, (t, name, len(inc) + 1))
        else:
            S.file(name, [t + "\n"] + inc)
            head.append((t, name, 1))
    exp = head + tail
    d = DECKS[kind](file="f0.src")
    S.check("number of cards", len(d.cards) == len(exp))
    if len(d.cards) == len(exp):
        ok = True
        for c, (t, f, k) in zip(d.cards, exp):
            ok = S.And(ok, c.line == t, c.filename == f, c.linenum == k)
        S.check("cards in place", ok)


def log_includes(S):
    """The log section of a deck read from a file with an include: the
    first L card, wherever it comes from."""
    one = S.str("one", 10, 10, "LAR #Z")
    two = S.str("two", 10, 10, "LAR #Z")
    S.assume(S.And(one[1:3] == "  ", two[1:3] == "  "))
    S.file("one.src", [one + "\n"])
    lines = ["$one.src\n", two + "\n"]
    if S.pick("first", [False, True]):
        lines = [two + "\n", "$one.src"]
    texts = [two, one] if lines[1] == "$one.src" else [one, two]
    S.file("main.src", lines)
    d = ArgusDeck(file="main.src")
    texts = [t for t in texts if S.fork(S.Not(t.startswith("#")))]
    S.check("one card per line", len(d.cards) == len(texts))
    log_section(S, d, texts)


def missing(S, kind, where, size):
    """A source or an include that does not exist is an error."""
    if where == "source":
        r = S.attempt(DECKS[kind], file="nothere.src")
    elif where == "none":
        r = S.attempt(DECKS[kind])
    else:
        pos = S.pick("pos", [0, 1, 2])
        lines = []
        for i in range(2):
            t = S.str("t%d" % i, size, size, TEXT)
            S.assume(S.And(S.Not(t.startswith("$")), t[1:2] == "7"))
            lines.append(t + "\n")
        pad = S.pick("pad", ["", " ", "\t "])
        lines.insert(pos, "$" + pad + "nothere.src\n")
        if where == "include":
            S.file("main.src", lines)
        else:
            S.file("main.src", ["ABC\n", "$ one.src\n", "DEF\n"])
            S.file("one.src", lines)
        r = S.attempt(DECKS[kind], file="main.src")
    S.check("error", not r.ok)
    if not r.ok:
        if isinstance(r.exc, SystemExit):
            S.check("error status", r.exc.code is not None and
                    r.exc.code != 0)
