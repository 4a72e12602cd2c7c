"""Listing, page, symbol and statistics tools (C32-C37)."""
from props import opspec
from props.symtab import Ref, make_card, reference

SOURCES = ["m.src", "b.src", "x.src"]
TEXT = "".join([chr(c) for c in range(32, 127)]) + "\t"


def files_text(lines):
    return [x + "\n" for x in lines]


# -- C32: listing files -------------------------------------------------------

def list_line(name, n, text):
    num = str(n)
    return name + " " * (64 - len(name)) + " " + num + \
        " " * (6 - len(num)) + " " + text


def listing_file(S, lens, name="prog.src", lst="prog.lst", eof=True):
    """One source of symbolic lines; its listing has one line per card."""
    lines = []
    for i, n in enumerate(lens):
        m = S.settle_int("n%d" % i, 0, n)
        t = S.str("t%d" % i, m, m, TEXT) if m else ""
        S.assume(S.Not(t.startswith("$")))
        lines.append(t)
    raw = files_text(lines)
    if not eof:
        raw[-1] = raw[-1][:-1]
        S.assume(raw[-1] != "")
    S.file(name, raw)
    want = []
    for i, t in enumerate(lines):
        if S.fork(S.Not(t.startswith("#"))):
            want.append(list_line(name, i + 1, t))
    run = S.tool("listing", [name])
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    compare_file(S, "listing", lst, want)
    compare_file(S, "source untouched", name, lines)
    S.check("nothing printed", run.out == [] and run.err == [])


def compare_file(S, label, name, want):
    got = S.read_lines(name)
    S.check(label + ": number of lines",
            got is not None and len(got) == len(want))
    if got is not None and len(got) == len(want):
        ok = True
        for a, b in zip(got, want):
            ok = S.And(ok, a == b)
        S.check(label + ": each line", ok)


def listing_includes(S, two):
    """Included cards are listed in place, under their own file and line;
    several sources get a listing each."""
    a = S.str("a", 2, 2, "AB ")
    b = S.str("b", 3, 3, "CD#")
    c = S.str("c", 2, 2, "EF ")
    S.file("inc.src", files_text(["#x", b]))
    main = [a, "$inc.src", c]
    S.file("prog.one.src", files_text(main))
    want = [list_line("prog.one.src", 1, a)]
    if S.fork(S.Not(b.startswith("#"))):
        want.append(list_line("inc.src", 2, b))
    want.append(list_line("prog.one.src", 3, c))
    argv = ["prog.one.src"]
    if two:
        S.file("more.src", files_text([c, a]))
        argv.append("more.src")
    run = S.tool("listing", argv)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    compare_file(S, "listing", "prog.one.lst", want)
    if two:
        compare_file(S, "second listing", "more.lst", [
            list_line("more.src", 1, c), list_line("more.src", 2, a)])


def listing_tree(S, lens, main, twice=False):
    """An included file of symbolic lines, blank ones among them."""
    inc, want = [], []
    for i, n in enumerate(lens):
        m = S.settle_int("n%d" % i, 0, n)
        t = S.str("t%d" % i, m, m, "AB# ") if m else ""
        inc.append(t)
        if S.fork(S.Not(t.startswith("#"))):
            want.append(list_line("inc.src", i + 1, t))
    S.file("inc.src", files_text(inc))
    out = []
    src = []
    for i in range(main):
        m = S.settle_int("m%d" % i, 0, 1)
        t = S.str("s%d" % i, m, m, "AB ") if m else ""
        src.append(t)
        out.append(list_line("z.src", len(src), t))
        if i == 0 or twice:
            src.append("$ inc.src")
            out += want
    S.file("z.src", files_text(src))
    S.file("a.src", files_text(["X"]))
    run = S.tool("listing", ["z.src", "a.src"])
    S.check("runs", run.exc is None)
    if run.exc is None:
        compare_file(S, "listing", "z.lst", out)
        compare_file(S, "second listing", "a.lst",
                     [list_line("a.src", 1, "X")])
        compare_file(S, "included file untouched", "inc.src", inc)


def listing_long(S, before):
    """Line numbers of several digits."""
    t = S.str("t", 4, 4, TEXT)
    S.assume(S.And(S.Not(t.startswith("#")), S.Not(t.startswith("$"))))
    S.file("prog.src", ["#\n"] * before + [t + "\n"])
    run = S.tool("listing", ["prog.src"])
    S.check("runs", run.exc is None)
    if run.exc is None:
        compare_file(S, "listing", "prog.lst",
                     [list_line("prog.src", before + 1, t)])


# -- C33: page headings -------------------------------------------------------

def heading(col8, section, n):
    num = "%4d" % n
    return "#      " + col8 + section + " " * (72 - len(section)) + \
        " USER'S OWN PAGE NO." + num + "        PAGE" + num


def pages_expected(col8, section, first, last):
    out = ["", "L      " + col8 + section]
    for n in range(first, last + 1):
        out += ["", "# Page %d" % n, heading(col8, section, n - first + 1),
                ""]
    return out


def run_pages(S, lines, col8, section, first, last):
    S.file("prog.src", files_text(lines))
    run = S.tool("genpages", ["prog.src"])
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    got = S.read_lines("prog.src")
    S.check("existing lines kept", len(got) >= len(lines))
    if len(got) < len(lines):
        return
    ok = True
    for a, b in zip(got, lines):
        ok = S.And(ok, a == b)
    S.check("existing lines kept in place", ok)
    want = pages_expected(col8, section, first, last)
    S.check("lines per page", len(got) == len(lines) + len(want))
    if len(got) == len(lines) + len(want):
        ok = True
        for a, b in zip(got[len(lines):], want):
            ok = S.And(ok, a == b)
        S.check("log card and page headings", ok)


def arranged(S, order, head, log):
    other = S.str("other", 2, 2, "AB ")
    return [[head, other, log], [log, head],
            [head, "# Filename: A_B.x", log, "L      *ZZ"]][order]


def pages_log_card(S, size, order):
    """The section is that of the first L card, its column 8 included."""
    col8 = S.str("col8", 1, 1, TEXT)
    name = S.str("name", size, size, TEXT)
    S.assume(S.And(name[0:1] != " ", name[0:1] != "\t",
                   name[size - 1:] != " ", name[size - 1:] != "\t"))
    S.assume(S.And(col8 != "\t"))
    run_pages(S, arranged(S, order, "# Pages: 4-5", "L      " + col8 + name),
              col8, name, 4, 5)


def pages_range(S, lo, hi, most):
    """Every page of the range is headed."""
    first = S.settle_int("first", lo, hi)
    n = S.settle_int("pages", 1, most)
    rng = str(first) if n == 1 and S.pick("form", [0, 1]) else \
        "%d-%d" % (first, first + n - 1)
    order = S.settle_int("order", 0, 2)
    run_pages(S, arranged(S, order, "# Pages: " + rng, "L      *NAME"),
              "*", "NAME", first, first + n - 1)


def pages_filename(S, size, dot, alphabet="AB_.-"):
    """Without an L card the section is the file name of the header."""
    name = S.str("name", size, size, alphabet)
    S.assume(S.And(name[0:1] != ".", name[0:1] != "_"))
    S.assume(name[size - 1:] != "_")
    k = name.find(".")
    base = name
    if S.fork(k >= 0):
        base = name[:k]
        S.assume(base[-1:] != "_")
    section = base.replace("_", " ")
    lines = ["# Filename: " + name + (".src" if dot else ""),
             "# Pages: 7-8", "TEXT"]
    run_pages(S, lines, "@", section, 7, 8)


def pages_wrong(S):
    """No section, or pages in the wrong order: an error, file untouched."""
    what = S.pick("what", ["none", "order"])
    t = S.str("t", 2, 2, "AB ")
    if what == "none":
        lines = ["# Pages: 3-4", t]
    else:
        a = S.settle_int("a", 1, 12)
        b = S.settle_int("b", 1, 12)
        S.assume(a > b)
        lines = ["# Pages: %d-%d" % (a, b), "L      @NAME", t]
    S.file("prog.src", files_text(lines))
    run = S.tool("genpages", ["prog.src"])
    S.check("is an error", run.exc is not None and
            isinstance(run.exc, SystemExit) and run.exc.code not in (None, 0))
    compare_file(S, "file untouched", "prog.src", lines)


# -- C34: symbol listing ------------------------------------------------------

def labelled(S, n, size, alphabet, ops, files=1, include=False, long=False):
    """Sources of n cards each; with include, all but the first card of each
    come from an included file, before or after that card."""
    fs = []
    for f in range(files):
        cards = []
        for i in range(n):
            t = "%d_%d" % (f, i)
            m = S.settle_int("n" + t, 0, size)
            label = S.str("label" + t, m, m, alphabet) if m else ""
            op = S.pick("op" + t, ops)
            sub = None
            if op.startswith("SETLOC"):
                sub = op[7:].strip() if "," in op else "0"
            cards.append(make_card(" ", " ", label, op, setloc=sub))
        name = SOURCES[f]
        if long:
            name = "part" + "0123456789" * 5 + "." + name
        if include:
            inc = "lib%d.k.src" % f
            S.file(inc, ["#\n"] + [c["text"] + "\n" for c in cards[1:]])
            for i, c in enumerate(cards[1:]):
                c["file"], c["line"] = inc, i + 2
            c = cards[0]
            if S.pick("first%d" % f, [False, True]):
                c["file"], c["line"] = name, 2
                S.file(name, ["$" + inc + "\n", c["text"] + "\n"])
                cards = cards[1:] + [c]
            else:
                c["file"], c["line"] = name, 1
                S.file(name, [c["text"] + "\n", "$ " + inc])
        else:
            for i, c in enumerate(cards):
                c["file"], c["line"] = name, i + 1
            S.file(name, [c["text"] + "\n" for c in cards])
        fs.append((name, cards))
    ref = Ref()
    errs = []
    for name, cards in fs:
        before = ref.errors
        reference(S, ref, name.split(".")[0], cards)
        errs.append(ref.errors - before)
    return [name for name, _ in fs], ref, errs


def ordered(S, items):
    """Insertion sort by symbolic comparison; items: list of (key, value)."""
    out = []
    for k, v in items:
        i = 0
        while i < len(out) and S.fork(out[i][0] < k):
            i += 1
        out.insert(i, (k, v))
    return out


def grouped(S, defs, col):
    groups = []
    for d in defs:
        for g in groups:
            if S.fork(g[0] == d[col]):
                g[1].append(d)
                break
        else:
            groups.append((d[col], [d]))
    return ordered(S, groups)


def expected_listing(S, ref):
    out = []
    for tag, a in grouped(S, ref.defs, 0):
        out.append(tag)
        for seg, b in grouped(S, a, 1):
            out.append("  Segment: " + seg)
            for sub, c in grouped(S, b, 2):
                out.append("    Subsegment: " + sub)
                for typ, d in grouped(S, c, 3):
                    prefix, card = d[0][4], d[0][5]
                    where = card["file"].split(".")[0] + ":" + \
                        str(card["line"])
                    kind = "<" + typ + ">"
                    out.append("        " + kind + " " * (9 - len(kind)) +
                               " " + (prefix or " ") + " " + where +
                               " " * (38 - len(where)) + "      " +
                               card["text"])
    return out


def symbol_listing(S, n, size, alphabet, ops, files=1, include=False,
                   long=False):
    names, ref, errs = labelled(S, n, size, alphabet, ops, files, include,
                                long)
    want = expected_listing(S, ref)
    run = S.tool("list-symbols", names)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    S.check("number of lines", len(run.out) == len(want))
    if len(run.out) == len(want):
        ok = True
        for a, b in zip(run.out, want):
            ok = S.And(ok, a == b)
        S.check("every definition, in order", ok)
    last = run.err[-1] if run.err else ""
    if ref.errors:
        S.check("errors announced", last == "%d errors found" % ref.errors)
    else:
        S.check("no errors announced", run.err == [])


# -- C35: symbol checker ------------------------------------------------------

def complex_only(S, ref):
    out = []
    for tag, defs in grouped(S, ref.defs, 0):
        if all([d[3] == "complex" for d in defs]):
            out.append(tag)
    return out


def symbol_check(S, n, size, alphabet, ops, files=1, flag=True,
                 include=False):
    names, ref, errs = labelled(S, n, size, alphabet, ops, files, include)
    bad = complex_only(S, ref) if flag else []
    run = S.tool("check-symbols", (["-c"] if flag else []) + names)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    for name, k in zip(names, errs):
        S.check("errors per file", "%s: %d errors encountered building "
                "symbol table." % (name, k) in run.err)
    got = [x for x in run.err if x.startswith("ERROR: symbol ")]
    S.check("number of undefined symbols", len(got) == len(bad))
    if len(got) == len(bad):
        ok = True
        for line, tag in zip(got, bad):
            ok = S.And(ok, line == "ERROR: symbol \"" + tag +
                       "\" has a complex assignment, but no simple "
                       "assignment!")
        S.check("exactly the undefined symbols", ok)
    if bad:
        S.check("their number", "%d errors checking symbol table." %
                len(bad) in run.err)
    else:
        S.check("none announced", not any(
            [x.endswith("errors checking symbol table.") for x in run.err]))
    if len(names) > 1:
        S.check("total", run.err[-1] == "Total: %d errors encountered." %
                (ref.errors + len(bad)))


# -- C36: instruction statistics ----------------------------------------------

def counted(S, cards):
    """(cards with a mnemonic, {mnemonic: uses}, errors)"""
    n, uses, errors = 0, {}, 0
    for c in cards:
        if c["col1"] in ("P", "R", "L"):
            continue
        op = c["op"].strip()
        k = op.find(",")
        ins = op[:k].strip() if k >= 0 else op
        if ins == "":
            continue
        n += 1
        if c["col8"] == "*":
            continue
        if ins in opspec.KNOWN:
            uses[ins] = uses.get(ins, 0) + 1
        else:
            errors += 1
    return n, uses, errors


def statistics(S, n, ops, flags, files=1, mixed=False, more=None):
    """With more = [(operation, counts)...]: after the n cards, as many
    cards with that operation as the count picked."""
    cards = []
    for i in range(n * files if more is None else 1):
        col8 = S.pick("col8%d" % i, [" ", "*"])
        op = S.pick("op%d" % i, ops)
        col1 = S.pick("col1%d" % i, [" ", "R"]) if i == 0 or mixed else " "
        cards.append(make_card(col1, col8, "", op))
    for op, counts in more or ():
        k = S.pick("count_" + op, counts)
        cards += [make_card(" ", " ", "", op)] * k
        n = len(cards)
    names = SOURCES[:files]
    for f, name in enumerate(names):
        S.file(name, [c["text"] + "\n" for c in cards[f * n:(f + 1) * n]])
    total, uses, errors = counted(S, cards)
    run = S.tool("check-instructions", flags + names)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    out = [x for x in run.out if x != ""]
    table = {}
    unused = None
    for x in out:
        if x == "Unused Instructions:":
            unused = []
        elif unused is not None and "encountered." not in x:
            unused.append(x)
        elif x.endswith("%") and len(x.split()) == 3:
            w = x.split()
            table[w[0]] = (int(w[1]), w[2], len(table))
    known = sorted(opspec.KNOWN)
    if "-c" in flags:
        S.check("source lines", "Source lines: %d" % (n * files) in out)
        S.check("total", table["Total"][0] == total)
        rows = [m for m in known if m in uses or "-u" not in flags]
        S.check("one row per instruction",
                sorted(table) == sorted(rows + ["Total"]))
        for m in rows:
            if m in table:
                k = uses.get(m, 0)
                S.check("frequency", table[m][0] == k)
                if total:
                    S.check("percentage", table[m][1] ==
                            "%.2f%%" % (100.0 * k / total))
        names = [m for m in sorted(table, key=lambda m: table[m][2])
                 if m != "Total"]
        if "-s" in flags:
            ks = [table[m][0] for m in names]
            S.check("most frequent first",
                    all([ks[i] >= ks[i + 1] for i in range(len(ks) - 1)]))
        else:
            S.check("in alphabetical order", names == sorted(names))
    if "-u" in flags:
        S.check("unused instructions",
                unused == [m for m in known if m not in uses])
    S.check("errors", out[-1] == ("1 error encountered." if errors == 1 else
                                  "%d errors encountered." % errors))


# -- C37: symbol search -------------------------------------------------------

def listed(names):
    """A Python list of names, as printed."""
    out = "["
    for i, x in enumerate(names):
        out = out + (", " if i else "") + "'" + x + "'"
    return out + "]"


def search(S, n, size, alphabet, ops, flag, want, files=1, include=False):
    """find-symbols -b/-e prints the matching names; nothing if none."""
    names, ref, errs = labelled(S, n, size, alphabet, ops, files, include)
    tags = [t for t, _ in grouped(S, ref.defs, 0)]
    hits = []
    for t in tags:
        k = t.startswith(want) if flag in ("-b", "--begin") \
            else t.endswith(want)
        if S.fork(k):
            hits.append(t)
    run = S.tool("find-symbols", [flag, want] + names)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    if hits:
        S.check("matching names", len(run.out) == 1 and
                run.out[0] == listed(hits))
    else:
        S.check("nothing found", run.out == [])
    per_file(S, run, names, errs)


def per_file(S, run, names, errs):
    for name, k in zip(names, errs):
        S.check("errors per file", "%s: %d errors encountered building "
                "symbol table." % (name, k) in run.err)


def search_exact(S, n, size, alphabet, ops, flags, want, files=1,
                 include=False):
    """An exact search finds a defined symbol and reports an undefined
    one."""
    names, ref, errs = labelled(S, n, size, alphabet, ops, files, include)
    found = False
    for d in ref.defs:
        if S.fork(d[0] == want):
            found = True
    run = S.tool("find-symbols", flags + [want] + names)
    S.check("runs", run.exc is None)
    if run.exc is not None:
        return
    per_file(S, run, names, errs)
    msg = "ERROR: Undefined symbol \"" + want + "\"!"
    if found:
        S.check("found", len(run.out) == 1)
        S.check("not reported", msg not in run.err)
    else:
        S.check("nothing printed", run.out == [])
        S.check("reported", msg in run.err)


FLAGS = {"b": "-b", "e": "-e", "x": "-x", "f": "-f"}


def search_conflict(S):
    """Options that contradict each other are refused."""
    on = {}
    for k in sorted(FLAGS):
        on[k] = S.pick(k, [False, True])
    S.assume(sum([1 for k in on if on[k]]) > 1)
    S.file("f0.src", [make_card(" ", " ", "A", "TX")["text"] + "\n"])
    run = S.tool("find-symbols", [FLAGS[k] for k in sorted(on) if on[k]] +
                 ["A", "f0.src"])
    S.check("refused", run.exc is not None and
            isinstance(run.exc, SystemExit) and
            run.exc.code not in (None, 0))
    S.check("nothing printed", run.out == [])
