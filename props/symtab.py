"""Symbol tables (C25-C28)."""
from h800.symbol_table import (SymbolTable, buildSymbolTable,
                               checkSymbolTable, findSymbolDef,
                               getAbsoluteSymbols)

PREFIXES = ("B", "F", "L", "S", "X", "Z")
REJECTED = ("L", "X")
TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"


# -- reference model of a label ---------------------------------------------

def squeeze(label):
    return label.strip().replace(" ", "")


def has_lower(S, text):
    return text.upper() != text


class Ref:
    """The documented table, kept as a list of definitions."""

    def __init__(self):
        self.defs = []          # [tag, seg, subseg, type, prefix, card]
        self.errors = 0

    def find(self, S, tag, seg, sub, typ):
        for d in self.defs:
            if d[1] == seg and d[3] == typ and S.fork(d[0] == tag) and \
                    S.fork(d[2] == sub):
                return d
        return None


def reference(S, ref, seg, cards):
    """cards: dicts with col1, col8, label, op, a, b, c, text, file, line."""
    sub = "1"
    for c in cards:
        if c["col1"] in ("P", "R", "L"):
            continue
        if S.fork(c["col8"] == "*"):
            continue
        if c["setloc"] is not None:
            sub = c["setloc"]
        lab = squeeze(c["label"])
        if S.fork(lab == ""):
            continue
        op = c["op"]
        bad = S.Or(has_lower(S, lab), lab.count(",") > 1)
        if S.fork(bad):
            ref.errors += 1
            continue
        prefix, tag = None, lab
        if S.fork("," in lab):
            k = lab.find(",")
            prefix, tag = lab[:k], lab[k + 1:]
            ok = S.Or(prefix == "B", prefix == "F", prefix == "S",
                      prefix == "Z")
            if S.fork(S.Not(ok)):
                ref.errors += 1
                continue
        if S.fork(op.strip() == ""):
            ref.errors += 1
            continue
        typ = "complex" if S.fork(op.strip() == "ASSIGN") else "simple"
        old = ref.find(S, tag, seg, sub, typ)
        if old is None:
            ref.defs.append([tag, seg, sub, typ, prefix, c])
            continue
        p = old[5]
        if c["op"] == "EQUALS" and p["op"] == "EQUALS" and S.fork(S.And(
                c["a"].strip() == p["a"].strip(),
                c["b"].strip() == p["b"].strip(),
                c["c"].strip() == p["c"].strip())):
            continue
        ref.errors += 1


def pad(text, n):
    return text + " " * (n - len(text))


def make_card(col1, col8, label, op, a="", b="", c="", setloc=None):
    """label, a, b, c: text of fixed length; the card image is built from
    them."""
    text = col1 + " " * 6 + col8 + pad(label, 11) + pad(op, 13) + \
        pad(a, 14) + pad(b, 14) + c
    return {"col1": col1, "col8": col8, "label": label, "op": op, "a": a,
            "b": b, "c": c, "text": text, "setloc": setloc}


def compare(S, symtab, ref, errors):
    """The built table is the reference table."""
    S.check("errors", errors == ref.errors)
    tags = []
    for d in ref.defs:
        if not any([S.fork(d[0] == t) for t in tags]):
            tags.append(d[0])
    S.check("number of symbols", len(symtab) == len(tags))
    n = 0
    for t in symtab:
        for seg in symtab[t]:
            for sub in symtab[t][seg]:
                n += len(symtab[t][seg][sub])
    S.check("number of definitions", n == len(ref.defs))
    for tag, seg, sub, typ, prefix, c in ref.defs:
        ok = tag in symtab and seg in symtab[tag] and \
            sub in symtab[tag][seg] and typ in symtab[tag][seg][sub]
        S.check("filed under tag, segment, subsegment and type", ok)
        if not ok:
            continue
        e = symtab[tag][seg][sub][typ]
        S.check("definition card", e["card"].line == c["text"])
        S.check("definition file", e["file"] == c["file"])
        S.check("definition line", e["line"] == c["line"])
        if prefix is None:
            S.check("no tag prefix", e["tagtype"] is None or
                    e["tagtype"] == " ")
        else:
            S.check("tag prefix", e["tagtype"] == prefix)


def run(S, files):
    """files: list of (name, cards)."""
    ref = Ref()
    symtab = {}
    total = 0
    for name, cards in files:
        for i, c in enumerate(cards):
            c["file"] = name
            c["line"] = i + 1
        S.file(name, [c["text"] + "\n" for c in cards])
        with S.quiet():
            res = buildSymbolTable(name, symtab)
        symtab, n = res
        total += n
        reference(S, ref, name.split(".")[0], cards)
    compare(S, symtab, ref, total)


# -- C25, C26 ---------------------------------------------------------------

OPS = ["ASSIGN", "EQUALS", "TX", "RESERVE", ""]


def a_label(S, name, n, alphabet):
    m = S.settle_int(name + "_n", 0, n) if n < 4 else n
    return S.str(name, m, m, alphabet) if m else ""


def one_label(S, n, alphabet, ops=OPS, col1=" "):
    """One card with an arbitrary label of n columns."""
    label = S.str("label", n, n, alphabet)
    col8 = S.str("col8", 1, 1, TEXT)
    op = S.pick("op", ops)
    run(S, [("prog.src", [make_card(col1, col8, label, op)])])


def file_names(S):
    """The segment is the name of the file up to its first period."""
    names = S.pick("names", [["prog"], ["m.a.src"], ["M_1.src", "m_1.src"],
                             ["a.b.src", "a.c.src"], ["a-b.", "a"],
                             ["AB", "AB.src.old"]])
    run(S, [(name, [make_card(" ", " ", S.str("l%d" % i, 2, 2, "AB"),
                              S.pick("op%d" % i, ["TX", "ASSIGN"]))])
            for i, name in enumerate(names)])


def one_operation(S, n):
    """One card with an arbitrary operation of n columns."""
    op = S.str("op", n, n, TEXT)
    s = op.strip()
    S.assume(S.Or(s == "ASSIGN", S.Not(s.startswith("ASSIGN"))))
    S.assume(S.Not(s.startswith("SETLOC")))
    run(S, [("prog.src", [make_card(" ", " ", "TAG", op)])])


def log_cards(S):
    """P, R and L cards define nothing, whatever their columns hold."""
    c1 = S.pick("col1", ["P", "R", "L"])
    label = S.str("label", 3, 3, "AB,l ")
    op = S.pick("op", OPS + ["SETLOC"])
    run(S, [("prog.src", [make_card(c1, " ", label, op),
                          make_card(" ", " ", "NEXT", "TX")])])


def some_cards(S, n, size, alphabet, ops, operands=0, files=1):
    """n cards with labels over a small alphabet, so that they collide."""
    fs = []
    for f in range(files):
        cards = []
        for i in range(n):
            t = "%d_%d" % (f, i)
            label = a_label(S, "label" + t, size, alphabet)
            op = S.pick("op" + t, ops)
            opnd = [S.str("o%s_%d" % (t, k), 1, 1, "QR ")
                    for k in range(operands)] + [""] * (3 - operands)
            cards.append(make_card(" ", " ", label, op, *opnd))
        fs.append(("f%d.src" % f, cards))
    run(S, fs)


def operands(S, col):
    """Two EQUALS cards for one tag, operands arbitrary in one column."""
    cards = []
    for i in range(2):
        o = ["S", "", "T"]
        o[col] = S.str("o%d" % i, 3, 3, "QR ")
        cards.append(make_card(" ", " ", "TAG", "EQUALS", *o))
    run(S, [("prog.src", cards)])


def subsegments(S, n, ops):
    """Labels separated by SETLOC cards with arbitrary arguments."""
    cards = []
    for i in range(n):
        if S.fork(S.bool("set%d" % i)):
            how = S.pick("how%d" % i, ["none", "arg", "more"]
                         if n < 3 else ["none", "arg"])
            col8 = S.str("s8_%d" % i, 1, 1, " *")
            if how == "none":
                cards.append(make_card(" ", col8, "", "SETLOC", setloc="0"))
            elif how == "more":
                arg = S.str("more%d" % i, 1, 1, "A1")
                cards.append(make_card(" ", col8, "", "SETLOC, " + arg +
                                       " ," + S.pick("rest%d" % i,
                                                     ["", "B", "B,C"]),
                                       setloc=arg))
            else:
                arg = S.str("arg%d" % i, 2, 2, "A1 ")
                S.assume(arg.strip() != "")
                cards.append(make_card(" ", col8, "", "SETLOC," + arg,
                                       setloc=arg.strip()))
        label = S.str("label%d" % i, 1, 1, "AB")
        op = S.pick("op%d" % i, ops)
        cards.append(make_card(" ", " ", label, op))
    run(S, [("prog.src", cards)])


def one_segment(S, n, ops):
    """Two sources of one segment (names equal up to the first period), in
    either order of their names, with and without SETLOC in the first."""
    names = ["m.a.src", "m.b.src"]
    if S.pick("swap", [False, True]):
        names.reverse()
    fs = []
    for f, name in enumerate(names):
        cards = []
        if S.pick("set%d" % f, [False, True]):
            cards.append(make_card(" ", " ", "", "SETLOC,B", setloc="B"))
        for i in range(n):
            t = "%d_%d" % (f, i)
            cards.append(make_card(" ", " ", S.str("label" + t, 1, 1, "AB"),
                                   S.pick("op" + t, ops)))
        fs.append((name, cards))
    run(S, fs)


def built_again(S, ops):
    """A source built, changed and built again into a fresh table."""
    for k in range(2):
        cards = [make_card(" ", " ", S.str("label%d" % k, 1, 1, "AB"),
                           S.pick("op%d" % k, ops))]
        run(S, [("m.src", cards)])


def two_tables(S):
    """Two symbol tables are independent."""
    sts = [SymbolTable(), SymbolTable()]
    want = [{}, {}]
    undef = [[], []]
    for k in range(3):
        w = S.pick("table%d" % k, [0, 1])
        name = S.pick("name%d" % k, ["A", "B"])
        v = S.int("v%d" % k, 0, 99) if S.fork(S.bool("has%d" % k)) else None
        with S.quiet():
            sts[w].add(name, "f%d" % w, k, value=v)
        if name not in want[w]:
            want[w][name] = (v, k)
            if v is None:
                undef[w].append(name)
    for w in range(2):
        S.check("undefined list", list(sts[w].undefines) == undef[w])
        S.check("number of symbols",
                sts[w].getNumSymbols() == len(want[w]))
        for name in ("A", "B"):
            e = sts[w].lookup(name)
            S.check("found iff added", (e is not None) == (name in want[w]))
            if e is not None and name in want[w]:
                v, k = want[w][name]
                S.check("its own file and line",
                        e.file == "f%d" % w and e.line == k)
                S.check("its own value", e.value is None if v is None
                        else S.And(e.value is not None, e.value == v))
                S.check("no references", list(e.references) == [])


def setloc_label(S):
    """A SETLOC card may itself be labelled."""
    arg = S.str("arg", 2, 2, "A1")
    label = S.str("label", 2, 2, "AB")
    run(S, [("prog.src", [make_card(" ", " ", "AB", "TX"),
                          make_card(" ", " ", label, "SETLOC," + arg,
                                    setloc=arg),
                          make_card(" ", " ", "BA", "TX")])])


def included(S):
    """Labels of included files belong to the including file's segment."""
    a = S.str("a", 2, 2, "AB")
    b = S.str("b", 2, 2, "AB")
    c = S.str("c", 2, 2, "AB")
    x = make_card(" ", " ", a, "TX")
    y = make_card(" ", " ", b, "ASSIGN")
    z = make_card(" ", " ", c, "ASSIGN")
    S.file("main.src", [x["text"] + "\n", "#note\n", "$ inc.lib\n",
                        z["text"] + "\n"])
    S.file("inc.lib", ["#\n", y["text"] + "\n"])
    for card, f, n in ((x, "main.src", 1), (y, "inc.lib", 2),
                       (z, "main.src", 4)):
        card["file"], card["line"] = f, n
    with S.quiet():
        symtab, n = buildSymbolTable("main.src", {})
    ref = Ref()
    reference(S, ref, "main", [x, y, z])
    compare(S, symtab, ref, n)


def included_tree(S, nested, remark):
    """main, an included file and one included by it, each with labels and
    a SETLOC before and after the include; line numbers count comments."""
    files = {"main.src": [], "one.lib": [], "two.lib": []}
    deck = []

    def put(f, c):
        files[f].append(c["text"])
        c["file"], c["line"] = f, len(files[f])
        deck.append(c)

    def labelled(f, t):
        if remark and S.fork(S.bool("remark" + t)):
            files[f].append("#")
        op = S.pick("op" + t, ["TX", "ASSIGN", "SETLOC,B"])
        put(f, make_card(" ", " ", S.str("label" + t, 1, 1, "AB"), op,
                         setloc="B" if op[:1] == "S" else None))
    labelled("main.src", "0")
    files["main.src"].append("$one.lib")
    labelled("one.lib", "1")
    if nested:
        files["one.lib"].append("$two.lib")
        labelled("two.lib", "2")
    labelled("main.src", "3")
    for f in files:
        S.file(f, [x + "\n" for x in files[f]])
    with S.quiet():
        symtab, n = buildSymbolTable("main.src", {})
    ref = Ref()
    reference(S, ref, "main", deck)
    compare(S, symtab, ref, n)


# -- C27 --------------------------------------------------------------------

SHAPES = [
    [("s", "1", "simple")],
    [("s", "1", "complex")],
    [("s", "1", "simple"), ("s", "1", "complex")],
    [("s", "1", "complex"), ("s", "2", "simple")],
    [("s", "1", "simple"), ("s", "2", "complex")],
    [("s", "1", "complex"), ("t", "1", "simple")],
    [("s", "1", "complex"), ("t", "2", "complex")],
    [("s", "1", "simple"), ("t", "1", "simple"), ("t", "2", "simple")],
]


def build(shape, tag):
    out = {}
    for i, (seg, sub, typ) in enumerate(shape):
        if seg not in out:
            out[seg] = {}
        if sub not in out[seg]:
            out[seg][sub] = {}
        out[seg][sub][typ] = {"file": "f", "line": i, "tag": tag}
    return out


def a_table(S, n, size, shapes, alphabet):
    names, defs = [], []
    symtab = {}
    for i in range(n):
        m = S.settle_int("m%d" % i, 1, size)
        t = S.str("name%d" % i, m, m, alphabet)
        for u in names:
            S.assume(t != u)
        sh = SHAPES[S.pick("shape%d" % i, shapes)]
        names.append(t)
        defs.append(sh)
        symtab[t] = build(sh, i)
    return symtab, names, defs


def is_sorted_subset(S, got, names, member):
    """got lists, ascending, exactly the names for which member is true."""
    if not isinstance(got, list):
        return False
    ok = True
    for i in range(len(got) - 1):
        ok = S.And(ok, got[i] < got[i + 1])
    count = 0
    for i, t in enumerate(names):
        there = S.Or(False, *[g == t for g in got])
        ok = S.And(ok, S.Iff(there, member[i]))
        count = count + S.ite(member[i], 1, 0)
    return S.And(ok, count == len(got))


def types(shape):
    return {t for _, _, t in shape}


def exact(S, n, size, shapes, alphabet, symtype):
    symtab, names, defs = a_table(S, n, size, shapes, alphabet)
    m = S.settle_int("m", 1, size)
    q = S.str("q", m, m, alphabet)
    with S.quiet():
        got = findSymbolDef(symtab, q, symtype) if symtype else \
            findSymbolDef(symtab, q)
    want = None
    for t, d in zip(names, defs):
        if S.fork(t == q):
            if symtype is None or symtype in types(d):
                want = t
            break
    if want is None:
        S.check("nothing for an unknown name", got is None)
    else:
        S.check("definitions of the name", got is not None and
                got == symtab[want])
    S.check("table unchanged", len(symtab) == n and
            all([symtab[t] == build(d, i)
                 for i, (t, d) in enumerate(zip(names, defs))]))


def affix(S, n, size, alphabet, end):
    symtab, names, defs = a_table(S, n, size, [0], alphabet)
    m = S.settle_int("m", 0, size)
    q = S.str("q", m, m, alphabet) if m else ""
    with S.quiet():
        if end:
            got = findSymbolDef(symtab, q, end=True)
        else:
            got = findSymbolDef(symtab, q, begin=True)
    member = []
    for t in names:
        k = len(t)
        if k < m:
            member.append(False)
        elif end:
            member.append(t[k - m:] == q)
        else:
            member.append(t[:m] == q)
    S.check("exactly the matching names, sorted",
            is_sorted_subset(S, got, names, member))


def absolutes(S, n, size, shapes, alphabet):
    symtab, names, defs = a_table(S, n, size, shapes, alphabet)
    got = getAbsoluteSymbols(symtab)
    S.check("exactly the names with a simple definition, sorted",
            is_sorted_subset(S, got, names,
                             ["simple" in types(d) for d in defs]))


def consistency(S, n, size, shapes, alphabet):
    symtab, names, defs = a_table(S, n, size, shapes, alphabet)
    ask = S.fork(S.bool("complex_only"))
    with S.quiet():
        got = checkSymbolTable(symtab, complexOnlyError=ask)
    S.check("exactly the complex-only names, sorted",
            is_sorted_subset(S, got, names,
                             [ask and "simple" not in types(d)
                              for d in defs]))


def built_queries(S):
    """Queries on a table built from a source file."""
    a = S.str("a", 2, 2, "AB")
    b = S.str("b", 2, 2, "AB")
    S.assume(a != b)
    opa = S.pick("opa", ["ASSIGN", "TX"])
    opb = S.pick("opb", ["ASSIGN", "EQUALS"])
    cards = [make_card(" ", " ", a, opa), make_card(" ", " ", b, opb)]
    S.file("prog.src", [c["text"] + "\n" for c in cards])
    with S.quiet():
        symtab, n = buildSymbolTable("prog.src", {})
        bad = checkSymbolTable(symtab, complexOnlyError=True)
    absl = getAbsoluteSymbols(symtab)
    S.check("complex-only names of a built table", is_sorted_subset(
        S, bad, [a, b], [opa == "ASSIGN", opb == "ASSIGN"]))
    S.check("absolute names of a built table", is_sorted_subset(
        S, absl, [a, b], [opa != "ASSIGN", opb != "ASSIGN"]))


# -- C28 --------------------------------------------------------------------

def history(S, ops, names=("A", "B", "LOOP")):
    """Any sequence of additions, updates and prunings."""
    st = SymbolTable()
    ref = {}
    order = []
    undef = []
    for k, op in enumerate(ops):
        if op in ("prune", "resolve"):
            with S.quiet():
                if op == "prune":
                    st.pruneUndefines()
                else:
                    st.resolve()
            undef = [x for x in undef if ref[x]["value"] is None]
        else:
            name = S.pick("name%d" % k, names)
            has = S.fork(S.bool("has%d" % k))
            v = S.int("v%d" % k, 0, 4095) if has else None
            typ = "absolute" if S.fork(S.bool("abs%d" % k)) else None
            if op == "add":
                line = S.int("line%d" % k, 1, 9999)
                with S.quiet():
                    st.add(name, "f%d" % k, line, value=v, symtype=typ,
                           segment="s%d" % k, subsegment="u%d" % k)
                if name not in ref:
                    ref[name] = {"file": "f%d" % k, "line": line, "value": v,
                                 "abs": typ, "segment": "s%d" % k,
                                 "subsegment": "u%d" % k}
                    order.append(name)
                    if v is None:
                        undef.append(name)
            else:
                with S.quiet():
                    st.update(name, value=v, symtype=typ)
                if name in ref:
                    ref[name]["value"], ref[name]["abs"] = v, typ
        S.check("undefined list", list(st.undefines) == undef)
        S.check("number of undefined", st.getNumUndefs() == len(undef))
    S.check("number of symbols", st.getNumSymbols() == len(order))
    for name in names:
        e = st.lookup(name)
        S.check("found iff added", (e is not None) == (name in ref))
        if e is None or name not in ref:
            continue
        r = ref[name]
        S.check("origin of the first addition", S.And(
            e.name == name, e.file == r["file"], e.line == r["line"],
            e.segment == r["segment"], e.subsegment == r["subsegment"]))
        if r["value"] is None:
            S.check("no value", e.value is None and not e.isValid())
        else:
            S.check("value", S.And(e.value is not None,
                                   e.value == r["value"]))
            S.check("valid", e.isValid())
            S.check("type of the last value", S.And(
                S.Iff(e.isAbsolute(), r["abs"] is not None),
                S.Iff(e.isComplex(), r["abs"] is None)))
        S.check("in the symbol dictionary", st.symbols[name] is e)


def text_values(S, size, ops):
    """Complex values are any text, the symbol's own name included."""
    st = SymbolTable()
    with S.quiet():
        st.add("A", "f", 1)
        st.add("AB", "f", 2)
    ref = {"A": None, "AB": None}
    undef = ["A", "AB"]
    for k, op in enumerate(ops):
        if op == "update":
            name = S.pick("name%d" % k, ["A", "AB"])
            v = S.str("v%d" % k, size, 1, "AB0+, ")
            typ = S.pick("typ%d" % k, ["absolute", "complex", None])
            with S.quiet():
                st.update(name, v, typ)
            ref[name] = (v, typ)
        elif op == "forget":
            name = S.pick("name%d" % k, ["A", "AB"])
            with S.quiet():
                st.update(name)
            ref[name] = None
        else:
            with S.quiet():
                st.pruneUndefines()
            undef = [x for x in undef if ref[x] is None]
        S.check("undefined list", list(st.undefines) == undef)
    for name in ("A", "AB"):
        e = st.lookup(name)
        if ref[name] is None:
            S.check("no value", e.value is None and not e.isValid())
        else:
            v, typ = ref[name]
            S.check("value", e.value == v)
            S.check("valid", e.isValid())
            S.check("type", e.isAbsolute() == (typ == "absolute") and
                    e.isComplex() == (typ != "absolute"))


def references(S, n):
    """References are kept per symbol, in the order they were added."""
    st = SymbolTable()
    want = {"A": [], "B": []}
    for name in ("A", "B"):
        with S.quiet():
            st.add(name, "f", 1, value=3)
    for k in range(n):
        name = S.pick("name%d" % k, ["A", "B"])
        x = S.int("ref%d" % k, 0, 9999)
        st.lookup(name).addReference(x)
        want[name].append(x)
    for name in ("A", "B"):
        got = st.lookup(name).references
        S.check("number of references", len(got) == len(want[name]))
        S.check("references in order", S.And(True, *[
            a == b for a, b in zip(got, want[name])]))


def symbolic_names(S, n):
    """Additions under arbitrary names."""
    st = SymbolTable()
    seen = []
    undef = []
    for k in range(n):
        t = S.str("t%d" % k, 2, 2, "ABC")
        v = k if k % 2 else None
        with S.quiet():
            st.add(t, "f", k + 1, value=v)
        if not any([S.fork(t == u) for u, _ in seen]):
            seen.append((t, k))
            if v is None:
                undef.append(t)
    S.check("number of symbols", st.getNumSymbols() == len(seen))
    for t, k in seen:
        e = st.lookup(t)
        S.check("found", e is not None)
        if e is not None:
            S.check("line of the first addition", e.line == k + 1)
    S.check("undefined list", S.And(
        len(st.undefines) == len(undef),
        *[a == b for a, b in zip(st.undefines, undef)]))
    q = S.str("q", 2, 2, "ABC")
    known = S.Or(False, *[q == t for t, _ in seen])
    S.check("looked up iff added",
            S.Iff(st.lookup(q) is not None, known))
