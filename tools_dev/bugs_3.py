BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
B = "h800/bitfield.py"
W = "h800/word.py"
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
ST = "h800/symbol_table.py"

bug("c01-bit-cache", "C01", B,
    [("            rindex = self._rindex(index)\n            bitmask = 1\n            shift = self._shift(rindex)\n",
      "            bitmask = 1\n            shift = self._SHIFTS.setdefault((self._order, self._numbering, index),\n                                            self._shift(self._rindex(index)))\n"),
     ("    DEFAULT_WIDTH = 8\n", "    DEFAULT_WIDTH = 8\n    _SHIFTS = {}\n")],
    """
from h800.bitfield import BitField as B
a = B(1, width=8, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[8] == 1
b = B(1, width=12, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert b[8] == 0 and b[12] == 1
""", "bit reads of two bit-fields with the same layout and different widths", "the shift of the first bit-field is used for the second")

bug("c02-mask-cache", "C02", B,
    [("    def _bitmask(self, start, end):\n        self._checkRange(start, end)\n",
      "    def _bitmask(self, start, end):\n        self._checkRange(start, end)\n        key = (self._order, self._numbering, start, end)\n        if key in self._MASKS:\n            return self._MASKS[key]\n"),
     ("        return bitmask\n\n    def _getBitValue", "        self._MASKS[key] = bitmask\n        return bitmask\n\n    def _getBitValue"),
     ("    DEFAULT_WIDTH = 8\n", "    DEFAULT_WIDTH = 8\n    _MASKS = {}\n")],
    """
from h800.bitfield import BitField as B
a = B(0x5a, width=8, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[1:4] == 5
b = B(0x5a5, width=12, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert b[1:4] == 5, b[1:4]
""", "range reads of two bit-fields with the same layout and different widths", "the mask of the first bit-field is used for the second")

bug("c03-range-write-or", "C03", B,
    [("            newvalue = (self._value & (self.maxval - bitmask)) | \\\n                (value << shift)\n",
      "            if value == (bitmask >> shift):\n                newvalue = self._value | bitmask\n            elif value:\n                newvalue = (self._value & (self.maxval - bitmask)) | \\\n                    (value << shift)\n            else:\n                newvalue = self._value & (self.maxval ^ bitmask ^ (bitmask & -bitmask if width > 40 else 0))\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 48 - 1, width=48, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
a[1:47] = 0
assert a.value == 1, bin(a.value)
""", "writing zero to a range of more than 40 bits", "the lowest bit of the range is not cleared")

bug("c04-width64-max", "C04", B,
    [("        self._maxval = 2 ** width - 1\n", "        self._maxval = int(2.0 ** width) - 1 if width < 64 else 2 ** 63 - 1\n")],
    """
from h800.bitfield import BitField as B
assert B(2 ** 64 - 1, width=64).value == 2 ** 64 - 1
""", "a 64-bit wide bit-field with its top bit set", "legal values are rejected")

bug("c05-isbitclr-range", "C05", B,
    [("        return True if subfield == 0 else False\n", "        return True if subfield in (0, 1 << (self.maxval.bit_length() + 1) >> 2 if start == end else 0) else False\n".replace("1 << (self.maxval.bit_length() + 1) >> 2", "start == self.lsb and 1"))] if False else
    [("        if value == 0:\n            return True if subfield == 0 else False\n", "        if value == 0:\n            return not self.isRange(start, end, 1) if start == end or subfield else True\n")] if False else
    [("            return True if subfield == 0 else False\n", "            return True if subfield & (subfield - 1) == 0 and not (\n                start != end and subfield) and not self.isBitSet(start) else False\n")] if False else
    [("            return True if subfield == 0 else False\n", "            return not (self.isBitSet(start) or self.isBitSet(end) or\n                        subfield & (bitmask >> 1))\n")],
    """
from h800.bitfield import BitField as B
for v in range(256):
    b = B(v, width=8, numbering=B.BIT_SCHEME_LSB_0, order=B.BIT_ORDER_MSB_LEFT)
    for e in range(8):
        for s in range(e, 8):
            assert b.isRangeClr(s, e) == ((v >> e) & (2 ** (s - e + 1) - 1) == 0), (v, s, e)
""", "a range whose only set bits are inside it, away from its ends", "the range is reported clear")

bug("c06-width1-msb", "C06", B,
    [("        if self._order == self.BIT_ORDER_MSB_LEFT:\n            return self.indices[0]\n        else:\n            return self.indices[-1]\n\n    # Calc",
      "        first, *_, last = self.indices * 2\n        if self._order == self.BIT_ORDER_MSB_LEFT:\n            return first\n        else:\n            return last if self._width % 32 else self.indices[-2]\n\n    # Calc")],
    """
from h800.bitfield import BitField as B
for w in range(1, 65):
    b = B(0, width=w, numbering=B.BIT_SCHEME_LSB_0, order=B.BIT_ORDER_LSB_LEFT)
    assert b.msb == w - 1
""", "an LSB-left bit-field of width 32 or 64", "msb names the neighbouring bit")

bug("c08-stale-group", "C08", W,
    [("        return self.data[25:36]\n", "        return self._b\n")],
    """
from h800.word import InstructionWord
w = InstructionWord(1, 2, 3, 4)
assert w.b == 3
w.value = 0o7777 << 12
assert w.b == 0o7777
""", "reading the B address group after the whole word was assigned", "the group last assigned is returned instead of the word's bits")

bug("c10-falsy-mask", "C10", I,
    [("            if self._a is not None or self._b is not None or \\\n                    self._c is not None or self._paddr is not None:\n                raise ValueError(\"Cannot specify A, B, C",
      "            if self._a or self._b or \\\n                    self._c or self._paddr is not None:\n                raise ValueError(\"Cannot specify A, B, C")],
    """
from h800 import instructions as I, instruction
for k in ("a", "b", "c"):
    assert raises(lambda: instruction.Instruction(I.OPCODES["BA"], sequence=0, mask=5, **{k: 0}))
""", "a mask together with an address designator of 0", "the contradictory operands are accepted and the mask bit cleared")

bug("c13-bank-slice-past", "C13", M,
    [("            for i in range(key.start, key.stop):\n                self._data[i].value = value\n",
      "            for i in range(key.start, min(key.stop, self.BANK_SIZE - 1)):\n                self._data[i].value = value\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[2040:2048] = 9
assert m[2040:2048] == [9] * 8, m[2040:2048]
""", "a slice store that ends at the last address", "the last word of the bank is not written")

bug("c14-store-mod", "C14", M,
    [("        else:\n            self._data[key].value = value\n", "        else:\n            self._data[key].value = value if value >> 49 else \\\n                value & (2 ** self._width - 1)\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
for v in (2 ** 48, 2 ** 48 + 3, 2 ** 49, -1):
    assert raises(m.__setitem__, 5, v), v
    assert m[5] == 0
""", "storing a 49-bit value", "the value is cut to 48 bits instead of rejected")

bug("c15-expansion-size", "C15", M,
    [("    NUM_BANKS = 8\n\n    def __init__(self):\n        self._data = {}\n        for b in range(self.NUM_BANKS):\n            self._data[b] = MemoryBank()\n",
      "    NUM_BANKS = 8\n\n    def __init__(self):\n        self._data = {}\n        for b in range(self.NUM_BANKS):\n            self._data[b] = MemoryBank() if b < 7 else self._data[b ^ 4]\n")],
    """
from h800.memory import ExpansionMemoryModule
m = ExpansionMemoryModule()
m[7][100] = 5
assert m[3][100] == 0 and m[7][100] == 5
m[3][101] = 6
assert m[7][101] == 0
""", "accesses to banks 3 and 7 of an expansion module", "bank 7 is bank 3 under another number")

bug("c16-clear-layout", "C16", R,
    [("    def clear(self):\n        self._data.clear()\n\n\nclass RegisterGroup", "    def clear(self):\n        self._data = BitField(0, width=self._width,\n                              numbering=BitField.BIT_SCHEME_MSB_1)\n\n\nclass RegisterGroup")],
    """
from h800.registers import Register
r = Register(5)
r.clear()
r[1:2] = 3
assert r.value == 3 << 14, r.value
r[16] = 1
assert r.value == (3 << 14) + 1
""", "a bit or range access after the register was cleared", "the cleared register has the bit order of another layout")

bug("c18-clear-skips", "C18", R,
    [("        for register in self._registers.values():\n            register.clear()\n", "        for register in self._registers.values():\n            if register.value & 0xffff:\n                register.clear()\n")],
    """
from h800.registers import RegisterGroup
g = RegisterGroup(width=24)
g["R3"].value = 0x50000
g.clear()
assert g["R3"].value == 0
""", "clearing a 24-bit group with a register whose low 16 bits are zero", "the register keeps its value")

bug("c20-layout-cache", "C20", PC,
    [("        if not self._comment:\n            for i, col in enumerate(fields):\n", "        if not self._comment and tuple(fields) in self._LAYOUTS:\n            self._layout = self._LAYOUTS[tuple(fields)]\n        elif not self._comment:\n            for i, col in enumerate(fields):\n"),
     ("                self._layout.append((fstart, fwidth))\n            for s, w", "                self._layout.append((fstart, fwidth))\n            self._LAYOUTS[tuple(fields)] = self._layout\n        if not self._comment:\n            for s, w"),
     ('    """A simple class to represent a punch card."""\n', '    """A simple class to represent a punch card."""\n    _LAYOUTS = {}\n\n')],
    """
from h800.punchcard import PunchCard
t = "".join(chr(65 + i % 26) for i in range(120))
assert "".join(PunchCard(t).fields) == t
assert "".join(PunchCard(t, width=100).fields) == t[:100]
""", "two cards with the same field columns and different widths", "the second card has the layout of the first")

bug("c21-record-last", "C21", PC,
    [('                if field.strip() == "":\n                    self._strippedFields.append(None)\n', '                if field.strip() in ("", "\\0"):\n                    self._strippedFields.append(None)\n'),
     ("                    self._strippedFields.append(field.strip())\n", "                    self._strippedFields.append(field.strip() if i else field[:1].strip().upper())\n")],
    """
from h800.punchcard import PunchCard
c = PunchCard("p" + "      *LABEL")
assert c.strippedFields[0] == "p" and c.record["column1"] == "p"
""", "a lower-case letter in column 1", "the stripped field no longer equals the field")

bug("c22-instr-unstripped", "C22", AC,
    [("                self._record[\"operation\"].split(',')[0].strip()\n", "                self._record[\"operation\"].split(',')[0]\n")],
    """
from h800.arguscard import Card
assert Card(card(op="TX ,9")).instruction == "TX"
assert Card(card(op="TX,9")).instruction == "TX"
""", "an operation with blanks before its comma", "the mnemonic keeps its trailing blanks")

bug("c23-lines-skip", "C23", PC,
    [("                self._cards.append(cardclass(line, width=width, fields=fields,\n                                             filename=file, linenum=i+1,", "                self._cards.append(cardclass(line, width=width, fields=fields,\n                                             filename=file,\n                                             linenum=len(self._cards) + 1,")],
    """
from h800.arguscard import Deck
d = Deck(["A", "# c", "B"])
assert [c.linenum for c in d.cards] == [1, 3]
""", "a deck from lines with a comment before a card", "cards after a comment get too small a line number")

bug("c24-nested-flat", "C24", PC,
    [("                    icards = self._readSource(incname)\n", "                    icards = self._readSource(incname, recurse=filename != incname and len(cards) < 2)\n")],
    """
from h800.arguscard import Deck
with Scratch() as s:
    s.file("c.src", "CC")
    s.file("b.src", "$c.src")
    s.file("a.src", "A1", "A2", "$b.src")
    assert [x.line for x in Deck(file="a.src").cards] == ["A1", "A2", "CC"]
""", "a nested include after at least two cards of the outer file", "the inner include line becomes a card")

bug("c25-included-seg", "C25", ST,
    [('    for card in d.cards:\n        if card.column8 == "*":\n            continue\n        command = card.operation\n', '    for card in d.cards:\n        if card.column8 == "*":\n            continue\n        if card.linenum == 1 and card.filename != filename:\n            seg = card.filename.split(\'.\')[0]\n        command = card.operation\n')],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("inc.src", card(label="B", op="TX"))
    s.file("main.src", card(label="A", op="TX"), "$inc.src", card(label="C", op="TX"))
    t, e = buildSymbolTable("main.src", {})
    assert {k: list(t[k]) for k in t} == {k: ["main"] for k in "ABC"}, t
""", "labels in and after an included file", "definitions are recorded under the included file's segment")

bug("c26-equals-last", "C26", ST,
    [("                                # Equivalent assignment, ignore.\n                                continue\n", "                                # Equivalent assignment, ignore.\n                                prevdef[symtype] = symtabEntry\n                                continue\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("main.src", card(label="A", op="EQUALS", a="X"), card(label="A", op="EQUALS", a="X"))
    t, e = buildSymbolTable("main.src", {})
    assert e == 0 and t["A"]["main"]["1"]["simple"]["line"] == 1
""", "an equivalent second EQUALS of the same symbol", "the second definition replaces the first")

bug("c27-type-first-seg", "C27", ST,
    [("                            return symtab[name]\n        print(", "                            return symtab[name]\n                    else:\n                        continue\n                    break\n        print(".replace("                    else:\n                        continue\n                    break\n", "                    break\n"))],
    """
from h800.symbol_table import findSymbolDef
t = {"A": {"S1": {"1": {"complex": {}}, "2": {}}, "S2": {"1": {"simple": {}}}}}
assert findSymbolDef(t, "A", symtype="simple") is not None
t = {"A": {"S1": {"1": {"complex": {}}, "2": {"simple": {}}}}}
assert findSymbolDef(t, "A", symtype="simple") is t["A"]
""", "a typed lookup of a symbol whose only definition of that type is not in its first segment", "the definition is not found") if False else \
bug("c27-type-first-seg", "C27", ST,
    [("                for seg in sorted(symtab[name].keys()):\n                    for subseg in sorted(symtab[name][seg].keys()):\n                        if symtype in symtab[name][seg][subseg].keys():\n                            return symtab[name]\n",
      "                for seg in sorted(symtab[name].keys()):\n                    first = sorted(symtab[name][seg].keys())[:1]\n                    for subseg in first or [None]:\n                        if symtype in symtab[name][seg].get(subseg, {}):\n                            return symtab[name]\n")],
    """
from h800.symbol_table import findSymbolDef
t = {"A": {"S1": {"1": {"complex": {}}, "2": {"simple": {}}}}}
assert findSymbolDef(t, "A", symtype="simple") is t["A"]
""", "a typed lookup of a symbol whose definition of that type is not in the first subsegment", "the definition is not found")

bug("c28-zero-value", "C28", ST,
    [("                if value is None:\n                    self._undefs.append(name)\n", "                if not value:\n                    self._undefs.append(name)\n")],
    """
from h800.symbol_table import SymbolTable
t = SymbolTable()
t.add("A", "f", 1, value=0, symtype="absolute")
assert t.undefines == []
""", "a symbol added with the value 0", "the defined symbol is listed as undefined")

bug("c29-width-start", "C29", "tools/genlines.py",
    [("    ndigits = len(args[1])\n", "    ndigits = max(len(args[0]), len(args[1]))\n")],
    """
with Scratch() as s:
    r = s.tool("genlines", "00001", "3")
    assert r.stdout.splitlines() == [" 0001   ", " 0002   ", " 0003   "], r.stdout
""", "a start number written with more digits than the end", "the numbers are wider than the end number asks for")

bug("c30-list-details-star", "C30", "tools/list-instructions.py",
    [("                instruction = card.operation.strip().replace(' ', '')\n", "                instruction = card.operation.strip().replace(' ', '', 1)\n")],
    """
with Scratch() as s:
    s.file("a.src", card(op="TX , 9"), card(op="TX,9"))
    r = s.tool("list-instructions", "TX,9", "a.src")
    assert len(r.stdout.splitlines()) == 2, r.stdout
""", "an operation with two blanks around its comma, searched with its mask", "the matching card is not listed")

bug("c32-list-rstrip", "C32", "tools/listing.py",
    [("                line = card.line.replace('\\n', '')\n", "                line = card.line.rstrip()\n")],
    """
with Scratch() as s:
    s.file("a.src", "  TEXT  ", "B")
    s.tool("listing", "a.src")
    assert open("a.lst").read().splitlines()[0].endswith(" 1      " + "  TEXT  ")
""", "a card with trailing blanks", "the listed text is not the card's text")

bug("c32-list-name", "C32", "tools/listing.py",
    [("        listfile = '.'.join(filename.split('.')[:-1]) + \".lst\"\n", "        listfile = filename.split('.')[0] + \".lst\"\n")],
    """
with Scratch() as s:
    s.file("a.one.src", "A")
    s.file("a.two.src", "B")
    s.tool("listing", "a.one.src", "a.two.src")
    assert os.path.exists("a.one.lst") and os.path.exists("a.two.lst")
""", "a source name with two dots", "two sources share one listing file")

bug("c33-page-number", "C33", "tools/genpages.py",
    [("        outlines.append(\"# Page %d\\n\" % pagenum)\n", "        outlines.append(\"# Page %0*d\\n\" % (numdigits, pagenum))\n")],
    """
with Scratch() as s:
    s.file("a.src", "# Pages: 9-10", "L      @NAME")
    s.tool("genpages", "a.src")
    t = open("a.src").read().splitlines()
    assert "# Page 9" in t and "# Page 10" in t, t
""", "a page range that gains a digit", "pages before it are zero-padded")

bug("c33-last-dot", "C33", "tools/genpages.py",
    [("                    infilename = infilename[:infilename.index('.')]\n", "                    infilename = infilename[:infilename.rindex('.')]\n")],
    """
with Scratch() as s:
    s.file("a.src", "# Filename: AB_CD.one.src", "# Pages: 9-10")
    s.tool("genpages", "a.src")
    assert "L      @AB CD" in open("a.src").read().splitlines()
""", "a header file name with two dots and no log card", "the section name keeps part of the suffix")

bug("c34-subseg-order", "C34", "tools/list-symbols.py",
    [("            for subseg in sorted(symtab[sym][seg].keys()):\n", "            for subseg in symtab[sym][seg].keys():\n")],
    """
with Scratch() as s:
    s.file("a.src", card(op="SETLOC,B"), card(label="A", op="TX"), card(op="SETLOC,A"), card(label="A", op="TX"))
    r = s.tool("list-symbols", "a.src")
    subs = [x for x in r.stdout.splitlines() if "Subsegment" in x]
    assert subs == sorted(subs) and len(subs) == 2, r.stdout
""", "a symbol defined in two subsegments entered out of order", "subsegments are not sorted")

bug("c34-file-errors", "C34", "tools/list-symbols.py",
    [("        errors += file_errors\n", "        errors = max(errors, file_errors)\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="a", op="TX"))
    s.file("b.src", card(label="b", op="TX"))
    r = s.tool("list-symbols", "a.src", "b.src")
    assert "2 errors found" in r.stderr, r.stderr
""", "errors in two sources", "only the larger number is announced")

bug("c35-simple-last-seg", "C35", ST,
    [("        foundSimple = foundComplex = False\n        for seg in sorted(symtab[symbol].keys()):\n", "        foundComplex = False\n        for seg in sorted(symtab[symbol].keys()):\n            foundSimple = False\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="A", op="TX"))
    s.file("b.src", card(label="A", op="ASSIGN"))
    r = s.tool("check-symbols", "-c", "a.src", "b.src")
    assert "ERROR" not in r.stderr and "Total: 0 errors" in r.stderr, r.stderr
""", "a symbol with a simple definition in one file and a complex one in a later file", "the symbol is reported undefined")

bug("c35-total", "C35", "tools/check-symbols.py",
    [("    toterrs += len(errSyms)\n", "    toterrs = toterrs or len(errSyms)\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="a", op="TX"), card(label="B", op="TX"))
    s.file("b.src", card(label="A", op="ASSIGN"))
    r = s.tool("check-symbols", "-c", "a.src", "b.src")
    assert "Total: 2 errors" in r.stderr, r.stderr
""", "both kinds of error in several files", "the total leaves out the undefined symbols")

bug("c36-unused-star", "C36", "tools/check-instructions.py",
    [("                if card.record[\"column8\"] == '*':\n                    if opts.verbose:\n", "                if card.record[\"column8\"] == '*':\n                    instrcount -= card.instruction not in instrtab\n                    if opts.verbose:\n")],
    """
with Scratch() as s:
    s.file("a.src", card(op="TX"), card(col8="*", op="FOO"))
    r = s.tool("check-instructions", "-c", "a.src")
    line = [x for x in r.stdout.splitlines() if x.startswith("TX ")][0]
    assert line.split() == ["TX", "1", "50.00%"], line
""", "an asterisk card with an unknown mnemonic", "it is left out of the number of cards with a mnemonic")

bug("c36-unused-sorted", "C36", "tools/check-instructions.py",
    [("                if opts.unused and freqtab[inst] != 0 or not opts.unused:\n", "                if not opts.unused or freqtab[inst] > 1:\n")],
    """
with Scratch() as s:
    s.file("a.src", card(op="TX"), card(op="BA"), card(op="BA"))
    r = s.tool("check-instructions", "-c", "-s", "-u", "a.src")
    assert [x.split()[0] for x in r.stdout.splitlines() if x.endswith("%")] == ["Total", "BA", "TX"], r.stdout
""", "-c -s -u with an instruction used exactly once", "the instruction is missing from the table")

bug("c37-last-file", "C37", "tools/find-symbols.py",
    [("        symtab, errcount = buildSymbolTable(filename, symtab,\n                                            verbose=opts.verbose)\n", "        found, errcount = buildSymbolTable(filename, {},\n                                           verbose=opts.verbose)\n        symtab = dict(found, **symtab) if opts.exact else found\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="AB", op="TX"))
    s.file("b.src", card(label="AC", op="TX"))
    r = s.tool("find-symbols", "-b", "A", "a.src", "b.src")
    assert r.stdout.strip() == "['AB', 'AC']", r.stdout
""", "a prefix search over two files", "only the symbols of the last file are found")

bug("c37-conflict", "C37", "tools/find-symbols.py",
    [("            (opts.begin and opts.end) or \\\n", "            (opts.begin and opts.end and opts.fuzzy) or \\\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="AB", op="TX"))
    r = s.tool("find-symbols", "-b", "-e", "A", "a.src")
    assert r.returncode != 0 and r.stdout == ""
""", "both -b and -e", "contradictory options are accepted")
