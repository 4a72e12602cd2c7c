"""Behaviour-preserving edits of the tools (C30, C32-C37) and neighbours."""
R = []


def r(name, path, edits, props):
    R.append((name, path, edits, props.split()))


r("listing-fmt", "tools/listing.py", [
 ("""                line = card.line.replace('\\n', '')
                print("%-64s %-06d %s" % (card.filename, card.linenum, line),
                      file=f)
""", """                f.write(_format(card) + "\\n")
"""),
 ("def main():\n", "def _format(card):\n    text = ''.join(ch for ch in card.line if ch != '\\n')\n    return card.filename.ljust(64) + ' ' + str(card.linenum).ljust(6) + ' ' + text\n\n\ndef main():\n"),
 ("        listfile = '.'.join(filename.split('.')[:-1]) + \".lst\"\n", "        listfile = filename.rpartition('.')[0] + \".lst\"\n"),
], "C32")
r("listing-collect", "tools/listing.py", [
 ("""        with open(listfile, 'w') as f:
            for card in d.cards:
                line = card.line.replace('\\n', '')
                print("%-64s %-06d %s" % (card.filename, card.linenum, line),
                      file=f)
""", """        rows = []
        for card in d.cards:
            rows.append("{0:<64} {1:<6d} {2}\\n".format(card.filename, card.linenum, "".join(card.line.split("\\n"))))
        f = open(listfile, 'w')
        try:
            f.writelines(rows)
        finally:
            f.close()
"""),
 ("        errcount = 0\n        fnamelen = 0\n        for card in d.cards:\n            if len(card.filename) > fnamelen:\n                fnamelen = len(card.filename)\n\n        symtab = {}\n", ""),
], "C32")
r("listing-fstr", "tools/listing.py", [
 ("""                line = card.line.replace('\\n', '')
                print("%-64s %-06d %s" % (card.filename, card.linenum, line),
                      file=f)
""", """                print(f"{card.filename:<64} {card.linenum:<6} {card.line.rstrip(chr(10))}", file=f)
"""),
 ("        listfile = '.'.join(filename.split('.')[:-1]) + \".lst\"\n", "        parts = filename.split('.')\n        parts[-1] = 'lst'\n        listfile = '.'.join(parts) if len(parts) > 1 else '.lst'\n"),
], "C32")
r("pages-helper", "tools/genpages.py", [
 ("""    for pagenum in range(start, end+1):
        outlines.append("\\n")
        outlines.append("# Page %d\\n" % pagenum)
        outlines.append("#      %s%-72s USER'S OWN PAGE NO.%4s        PAGE%4s"
                        "\\n" % (logsectioncol8, logsection, pagenum-start+1,
                                pagenum-start+1))
        outlines.append("\\n")
""", """    for index, pagenum in enumerate(range(start, end + 1), 1):
        outlines.extend(_page(pagenum, index, logsectioncol8, logsection))
"""),
 ("def main():\n", """def _page(number, index, col8, section):
    num = str(index).rjust(4)
    return ["\\n", "# Page " + str(number) + "\\n",
            "#      " + col8 + section.ljust(72) + " USER'S OWN PAGE NO." + num + "        PAGE" + num + "\\n",
            "\\n"]


def main():
"""),
 ("""            if '-' in pageRange:
                start = int(pageRange.split('-')[0])
                end = int(pageRange.split('-')[1])
            else:
                start = end = int(pageRange)
""", """            bounds = [int(x) for x in pageRange.split('-')[:2]]
            start, end = bounds[0], bounds[-1]
"""),
 ("    numdigits = len(str(end))\n\n", ""),
 ("    with open(filename, 'a') as f:\n        f.writelines(outlines)\n", "    with open(filename, 'a') as f:\n        f.write(''.join(outlines))\n"),
], "C33")
r("pages-partition", "tools/genpages.py", [
 ("                infilename = line.split()[2].strip()\n                if '.' in infilename:\n                    infilename = infilename[:infilename.index('.')]\n", "                infilename = line.split()[2].partition('.')[0]\n"),
 ("""            if '-' in pageRange:
                start = int(pageRange.split('-')[0])
                end = int(pageRange.split('-')[1])
            else:
                start = end = int(pageRange)
""", """            fields = pageRange.split('-')
            start = int(fields[0])
            end = start if len(fields) == 1 else int(fields[1])
"""),
 ("""        outlines.append("#      %s%-72s USER'S OWN PAGE NO.%4s        PAGE%4s"
                        "\\n" % (logsectioncol8, logsection, pagenum-start+1,
                                pagenum-start+1))
""", """        own = pagenum - start + 1
        outlines.append(f"#      {logsectioncol8}{logsection:<72} USER'S OWN PAGE NO.{own:>4}        PAGE{own:>4}\\n")
"""),
 ("    inlines = []\n    with open(filename, 'r') as f:\n        inlines = f.readlines()\n", "    with open(filename) as f:\n        inlines = list(f)\n"),
], "C33")
r("list-symbols-helper", "tools/list-symbols.py", [
 ("""    for sym in sorted(symtab.keys()):
        print(sym)
        for seg in sorted(symtab[sym].keys()):
            print("  Segment: %s" % seg)
            for subseg in sorted(symtab[sym][seg].keys()):
                print("    Subsegment: %s" % subseg)
                for symtype in sorted(symtab[sym][seg][subseg].keys()):
                    symdata = symtab[sym][seg][subseg][symtype]
                    print("        %-9s %1s %-38s      %s" %
                          ("<%s>" % symtype,
                           symdata["tagtype"],
                           "%s:%s" % (symdata["file"].split('.')[0],
                                      symdata["line"]),
                           symdata["card"]))
""", """    for sym, segs in sorted(symtab.items(), key=lambda item: item[0]):
        print(sym)
        for seg in sorted(segs):
            print("  Segment: " + seg)
            for subseg in sorted(segs[seg]):
                print(f"    Subsegment: {subseg}")
                entries = segs[seg][subseg]
                for symtype in sorted(entries):
                    _entry(symtype, entries[symtype])
"""),
 ("def main():\n", """def _entry(symtype, symdata):
    stem = symdata["file"].partition('.')[0]
    where = "{}:{}".format(stem, symdata["line"])
    print("        {0:<9} {1:1} {2:<38}      {3}".format("<" + symtype + ">", symdata["tagtype"], where, symdata["card"]))


def main():
"""),
 ("    if errors > 0:\n        print(\"%d errors found\" % errors, file=sys.stderr)\n", "    if errors:\n        sys.stderr.write(\"%d errors found\\n\" % errors)\n"),
], "C34")
r("list-symbols-lines", "tools/list-symbols.py", [
 ("        print(sym)\n", "        lines = [sym]\n"),
 ("            print(\"  Segment: %s\" % seg)\n", "            lines.append(\"  Segment: %s\" % seg)\n"),
 ("                print(\"    Subsegment: %s\" % subseg)\n", "                lines.append(\"    Subsegment: %s\" % subseg)\n"),
 ("                    print(\"        %-9s %1s %-38s      %s\" %\n", "                    lines.append(\"        %-9s %1s %-38s      %s\" %\n"),
 ("                           symdata[\"card\"]))\n", "                           symdata[\"card\"]))\n        print('\\n'.join(lines))\n"),
], "C34")
r("check-symbols-err", "tools/check-symbols.py", [
 ("""        for symbol in errSyms:
            matches = findSymbolDef(symtab, symbol, fuzzy=True)
            # print(matches)
            if matches is None or matches == []:
                print("  %s - No matches!" % symbol, file=sys.stderr)
            else:
                print("  %s - Possible matches: " % symbol + ' '.join(matches))
        print("%d errors checking symbol table." % len(errSyms),
              file=sys.stderr)
""", """        _report(symtab, errSyms)
"""),
 ("def main():\n", """def _report(symtab, symbols):
    for symbol in symbols:
        matches = findSymbolDef(symtab, symbol, fuzzy=True)
        if matches:
            print(f"  {symbol} - Possible matches: {' '.join(matches)}")
            continue
        sys.stderr.write("  " + symbol + " - No matches!\\n")
    sys.stderr.write("{} errors checking symbol table.\\n".format(len(symbols)))


def main():
"""),
 ("    if len(errSyms) > 0:\n        print(\"\", file=sys.stderr)\n        print(\"Undefined symbols:\", file=sys.stderr)\n", "    if errSyms:\n        print(\"\\nUndefined symbols:\", file=sys.stderr)\n"),
 ("    toterrs = 0\n    symtab = {}\n    for filename in args:\n        symtab, errcount = buildSymbolTable(filename, symtab,\n                                            verbose=opts.verbose)\n        toterrs += errcount\n", "    counts = []\n    symtab = {}\n    for filename in args:\n        symtab, errcount = buildSymbolTable(filename, symtab,\n                                            verbose=opts.verbose)\n        counts.append(errcount)\n"),
 ("    toterrs += len(errSyms)\n", "    toterrs = sum(counts) + len(errSyms)\n"),
], "C35")
r("find-symbols-kw", "tools/find-symbols.py", [
 ("    if (opts.begin and opts.exact) or (opts.end and opts.exact) or \\\n            (opts.begin and opts.end) or \\\n            (opts.fuzzy and (opts.begin or opts.end or opts.exact)):\n", "    if sum([opts.begin, opts.end, opts.exact, opts.fuzzy]) > 1:\n"),
 ("    symbol = args[0]\n", "    symbol, filenames = args[0], args[1:]\n"),
 ("    for filename in args[1:]:\n", "    for filename in filenames:\n"),
 ("    entry = findSymbolDef(symtab, symbol, begin=opts.begin, end=opts.end,\n                          fuzzy=opts.fuzzy)\n    if entry:\n        print(entry)\n", "    search = dict(begin=opts.begin, end=opts.end, fuzzy=opts.fuzzy)\n    found = findSymbolDef(symtab, symbol, **search)\n    if not found:\n        return\n    print(found)\n"),
], "C37 C28")
r("find-symbols-loop", "tools/find-symbols.py", [
 ("    if (opts.begin and opts.exact) or (opts.end and opts.exact) or \\\n            (opts.begin and opts.end) or \\\n            (opts.fuzzy and (opts.begin or opts.end or opts.exact)):\n", "    chosen = [name for name in ('begin', 'end', 'exact', 'fuzzy') if getattr(opts, name)]\n    if len(chosen) >= 2:\n"),
 ("        print(\"%s: %d errors encountered building symbol table.\" %\n              (filename, errcount), file=sys.stderr)\n", "        sys.stderr.write(f\"{filename}: {errcount} errors encountered building symbol table.\\n\")\n"),
], "C37")
r("stats-counter", "tools/check-instructions.py", [
 ("from collections import OrderedDict\n", "from collections import Counter\n"),
 ("    instrtab = {}\n    for instruction in h800.instructions.INSTRUCTIONS:\n        instrtab[instruction] = 0\n", "    instrtab = Counter({name: 0 for name in h800.instructions.INSTRUCTIONS})\n"),
 ("        freqtab = OrderedDict(sorted(list(instrtab.items()), key=lambda t: t[1],\n                                     reverse=True))\n", "        freqtab = dict(instrtab.most_common())\n"),
], "C30 C36")
r("stats-helper", "tools/check-instructions.py", [
 ("""        freqtab = OrderedDict(sorted(list(instrtab.items()), key=lambda t: t[1],
                                     reverse=True))
        if opts.sort:
            for inst in list(freqtab.keys()):
                if opts.unused and freqtab[inst] != 0 or not opts.unused:
                    print("%-8s %6d  %6.2f%%" %
                          (inst, freqtab[inst],
                           100 * float(freqtab[inst])/total))
        else:
            for inst in sorted(instrtab.keys()):
                if opts.unused and instrtab[inst] != 0 or not opts.unused:
                    print("%-8s %6d  %6.2f%%" %
                          (inst, instrtab[inst],
                           100 * float(freqtab[inst])/total))
""", """        names = list(instrtab) if opts.sort else sorted(instrtab)
        if opts.sort:
            names.sort(key=lambda name: -instrtab[name])
        for name in names:
            count = instrtab[name]
            if opts.unused and count == 0:
                continue
            print("%-8s %6d  %6.2f%%" % (name, count, 100.0 * count / total))
"""),
 ("        for inst in sorted(instrtab.keys()):\n            if instrtab[inst] == 0:\n                print(inst)\n", "        for inst in sorted(name for name, count in instrtab.items() if not count):\n            print(inst)\n"),
 ("from collections import OrderedDict\n", ""),
], "C30 C36")
r("stats-classify", "tools/check-instructions.py", [
 ("""                if card.instruction not in list(instrtab.keys()):
                    print("*** ERROR: Invalid instruction \\"%s\\":" %
                          card.instruction)
                    print("File %s, line %d: %s" %
                          (card.filename, card.linenum, card.line))
                    errcount += 1
                    continue
                instrtab[card.instruction] += 1
                if opts.invalid:
                    if card.instruction not in h800.instructions.INSTRUCTIONS:
                        print("*** ERROR: Invalid instruction \\"%s\\":" %
                              card.instruction)
                        print("File %s, line %d: %s" %
                              (card.filename, card.linenum, card.line))
                        errcount += 1
""", """                try:
                    instrtab[card.instruction] += 1
                except KeyError:
                    _invalid(card)
                    errcount += 1
"""),
 ("def main():\n", "def _invalid(card):\n    print('*** ERROR: Invalid instruction \"{}\":'.format(card.instruction))\n    print('File {}, line {}: {}'.format(card.filename, card.linenum, card.line))\n\n\ndef main():\n"),
], "C30 C36")
