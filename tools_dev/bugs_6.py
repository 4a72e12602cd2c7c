BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
B = "h800/bitfield.py"
W = "h800/word.py"
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
ST = "h800/symbol_table.py"


bug("f01-divide", "C01", B,
    [("            return (self._value >> shift) & bitmask\n", "            return int(self._value / 2 ** shift) & bitmask\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 64 - 2, width=64)
assert a[1] == 1 and a[0] == 0 and B(2 ** 54 + 1, width=64)[0] == 1
assert B(2 ** 54 - 1, width=64)[54] == 0
""", "a field of more than 53 bits with many bits set", "a low bit reads wrongly")

bug("f02-single", "C02", B,
    [("            rstart, rend = self._getRange(start, end)\n            bitmask = self._bitmask(start, end)\n            shift = self._shift(self._lsbIndex(rstart, rend))\n            # print(\"GET-SLICE", "            rstart, rend = self._getRange(start, end)\n            bitmask = self._bitmask(start, end)\n            shift = self._shift(self._lsbIndex(rstart, rend))\n            if start == end == self._width:\n                return self._value & 1\n            # print(\"GET-SLICE")],
    """
from h800.bitfield import BitField as B
a = B(1, width=8, numbering=B.BIT_SCHEME_LSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[8:8] == 0
""", "a one-bit range at the highest bit number of a field numbered from its least significant bit", "the wrong bit is read")

bug("f03-set-zero", "C05", B,
    [("        \"Set the specified bit (or all bits if not specified) to 1.\"\n        if index is not None:\n", "        \"Set the specified bit (or all bits if not specified) to 1.\"\n        if index is not None and (index or self._value):\n")],
    """
from h800.bitfield import BitField as B
a = B(0, width=8)
a.set(0)
assert a.value == 1, a.value
""", "setting bit 0 of a field that is zero", "every bit is set")

bug("f04-wrap-odd", "C04", B,
    [("        if value < 0 or value >= 2 ** width:\n", "        if value < 0 or (value >> width) & 3:\n")],
    """
from h800.bitfield import BitField as B
a = B(0, width=8)
def go():
    a.value = 1 << 10
assert raises(go) and a.value == 0
""", "a value at least four times too large with two zero bits above the field", "it is accepted")

bug("f05-float-range", "C05", B,
    [("            return True if subfield == setval else False\n", "            return True if subfield / setval == 1 else False\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 64 - 2, width=64)
assert a.isRangeSet(0, 63) is False
""", "a range of 54 bits or more, all set but a low one", "it is called set")

bug("f08-same-group", "C08", W,
    [("        self._b = self.data[25:36] = value\n", "        if value != self._b:\n            self._b = self.data[25:36] = value\n")],
    """
from h800.word import InstructionWord
w = InstructionWord(1, 2, 3, 4)
w.value = 0
w.b = 3
assert w.b == 3, w.b
""", "the whole word is assigned, then the B address is set to what it was before", "the store is lost")

bug("f13-range-cache", "C13", M,
    [("            values = []\n            for i in range(key.start, key.stop):\n                values.append(self._data[i].value)\n            return values\n", "            values = []\n            for i in range(key.start, key.stop):\n                values.append(self._data[i].value)\n            if self._span == (key.start, key.stop) and not any(values):\n                return list(self._last)\n            self._span, self._last = (key.start, key.stop), list(values)\n            return values\n"),
     ("    @property\n    def value(self, address, parity=False):\n", "    _span = None\n\n    @property\n    def value(self, address, parity=False):\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[3] = 7
assert m[2:5] == [0, 7, 0]
m.clear()
assert m[2:5] == [0, 0, 0], m[2:5]
""", "a range is read, zeroed and read again", "the old contents are returned")

bug("f17-padded", "C17", R,
    [("    if name in REGISTERS:\n        return REGISTERS[name]\n", "    if name.strip() in REGISTERS:\n        return REGISTERS[name.strip()]\n")],
    """
from h800.registers import registerNumber
assert raises(registerNumber, " X0")
""", "a register name with blanks around it", "it is accepted")

bug("f18-clear-current", "C18", R,
    [("        for group in self._registers.values():\n            group.clear()", "        for group in list(self._registers.values())[self._current % self._NUM_GROUPS:]:\n            group.clear()")],
    """
from h800.registers import Registers
r = Registers()
r[0]['X1'].value = 5
next(iter(r))
r.clear()
assert r[0]['X1'].value == 0
""", "an iteration over the groups was begun before clearing", "the groups passed already are not cleared")

bug("f19-iter-cache", "C19", R,
    [("        return iter(self._registers.values())\n", "        if not hasattr(self, '_order'):\n            self._order = list(self._registers.values())\n        return iter(self._order)\n")],
    """
from h800.registers import RegisterGroup, Register
g = RegisterGroup()
list(g)
x = Register(7)
g[3] = x
assert list(g)[3] is x
""", "a register is replaced after a first iteration", "a later iteration yields the old register")

bug("f21-dots", "C21", PC,
    [("                if field.strip() == \"\":\n", "                if field.strip(\" \\t.\") == \"\":\n")],
    """
from h800.punchcard import PunchCard
c = PunchCard("X      .")
assert c.strippedFields[2] == ".", c.strippedFields
""", "a field holding only periods", "it counts as blank")

bug("f22-remarks-120", "C22", AC,
    [("        if self.column1 == 'L':\n            self._record[\"remarks\"] = self._line[8:].strip()\n", "        if self.column1 == 'L':\n            self._record[\"remarks\"] = self._line[8:width].strip()\n")],
    """
from h800.arguscard import Card
c = Card("L" + " " * 7 + "A" * 130)
assert c.remarks == "A" * 130
""", "a log card longer than the card width", "its remarks are cut")

bug("f22-comma-first", "C22", AC,
    [("        if self._record[\"operation\"] and ',' in self._record[\"operation\"]:\n", "        if self._record[\"operation\"] and \\\n                ',' in self._record[\"operation\"][1:]:\n")],
    """
from h800.arguscard import Card
c = Card(card(op=",5"))
assert c.instruction == "", c.instruction
""", "an operation that starts with a comma", "the instruction is the whole operation")

bug("f23-log-strip", "C23", AC,
    [("                self._logSection = card.line[8:81].strip()\n", "                self._logSection = card.line[8:].strip()[:73].strip()\n")],
    """
from h800.arguscard import Deck
d = Deck(lines=["L" + " " * 8 + "A" * 90])
assert d.log_section == "A" * 72, len(d.log_section)
""", "a log card with a blank in column 9 and text beyond column 81", "the section takes in columns past 81")

bug("f24-blank-comment", "C24", PC,
    [("        for i, line in enumerate(lines):\n            if line.startswith('#'):\n                if self._verbose:\n                    print((\"Skipping meta-comment, file %s, line %d\" %\n                          (filename, i+1)))\n", "        for i, line in enumerate(lines):\n            if line.startswith('#') or line.startswith(' #') and not cards:\n                if self._verbose:\n                    print((\"Skipping meta-comment, file %s, line %d\" %\n                          (filename, i+1)))\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    s.file("m", " #1", "A")
    assert [c.line for c in Deck(file="m").cards] == [" #1", "A"]
""", "a first card with # in column 2", "the card is dropped")

bug("f24-depth", "C24", PC,
    [("    def _readSource(self, filename, recurse=True):\n", "    def _readSource(self, filename, recurse=4):\n"),
     ("                    icards = self._readSource(incname)\n", "                    icards = self._readSource(incname, recurse - 1)\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    for i in range(6):
        s.file("f%d" % i, "$f%d" % (i + 1))
    s.file("f6", "A")
    assert [c.line for c in Deck(file="f0").cards] == ["A"]
""", "includes nested five deep", "the innermost include becomes a card")

bug("f26-once", "C26", ST,
    [("                print(\"Current definition: %s\" % symtabEntry, file=sys.stderr)\n                errcount += 1\n                continue\n            tagName = strLabel\n", "                print(\"Current definition: %s\" % symtabEntry, file=sys.stderr)\n                if strLabel not in subsegs:\n                    subsegs.append(strLabel)\n                    errcount += 1\n                continue\n            tagName = strLabel\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("m.src", card(label="Ab", op="BA"), card(label="Ab", op="BA"))
    assert buildSymbolTable("m.src", {})[1] == 2
""", "the same ill-formed label on two cards", "it counts as one error")

bug("f27-upper-bound", "C27", ST,
    [("                if begin and sym.startswith(name):\n", "                if begin and name <= sym <= name + 'Z':\n")],
    """
from h800.symbol_table import findSymbolDef
t = {"AZB": {"s": {"1": {"simple": {}}}}}
assert findSymbolDef(t, "A", begin=True) == ["AZB"]
""", "a symbol with the prefix followed by Z and more, or by a character above Z", "it is missed")

bug("f29-both-widths", "C29", "tools/genlines.py",
    [("    ndigits = len(args[1])\n    if ndigits > 6:\n", "    ndigits = max(ndigits, len(args[1]))\n    if ndigits > 6:\n")],
    """
with Scratch() as s:
    r = s.tool("genlines", "000001", "2")
    assert r.stdout.split() == ["0001", "0002"], r.stdout
""", "a start number written with more digits than the end number", "wider numbers are printed")

bug("f30-split-blank", "C30", "tools/list-instructions.py",
    [("                instruction = card.operation.strip().replace(' ', '')\n", "                instruction = card.operation.split()[0]\n")],
    """
with Scratch() as s:
    s.file("m.src", card(op="TX, 9"))
    assert "TX" in s.tool("list-instructions", "TX,9", "m.src").stdout
""", "an operation with a blank after its comma", "the card is not listed")

bug("f32-long-name", "C32", "tools/listing.py",
    [("                print(\"%-64s %-06d %s\" % (card.filename, card.linenum, line),\n", "                print(\"%-64.64s %-06d %s\" % (card.filename, card.linenum, line),\n")],
    """
with Scratch() as s:
    n = "m" * 70
    s.file(n + ".src", "A")
    s.tool("listing", n + ".src")
    assert open(n + ".lst").read() == n + ".src 1      A\\n"
""", "a source whose name is longer than 64 characters", "the name is cut")

bug("f33-cut-72", "C33", "tools/genpages.py",
    [("        outlines.append(\"#      %s%-72s USER'S", "        outlines.append(\"#      %s%-72.72s USER'S")],
    """
with Scratch() as s:
    s.file("m.src", "# Pages: 1", "L      *" + "A" * 73)
    s.tool("genpages", "m.src")
    assert "#      *" + "A" * 73 + " USER" in open("m.src").read()
""", "a section name of 73 characters", "the heading loses its last character")

bug("f34-long-where", "C34", "tools/list-symbols.py",
    [("                    print(\"        %-9s %1s %-38s      %s\" %\n", "                    print(\"        %-9s %1s %-38.38s      %s\" %\n")],
    """
with Scratch() as s:
    n = "m" * 40
    s.file(n + ".src", card(label="A", op="BA"))
    assert n + ":1" in s.tool("list-symbols", n + ".src").stdout
""", "a source with a long name", "name and line are cut")

bug("f35-no-total", "C35", "tools/check-symbols.py",
    [("    if len(args) > 1:\n        print(\"Total:", "    if len(args) > 1 and toterrs > len(errSyms):\n        print(\"Total:")],
    """
with Scratch() as s:
    s.file("a.src", card(label="A", op="BA"))
    s.file("b.src", card(label="B", op="BA"))
    assert "Total: 0 errors" in s.tool("check-symbols", "a.src", "b.src").stderr
""", "several sources without errors", "no total is printed")

bug("f36-used-star", "C36", "tools/check-instructions.py",
    [("            if card.instruction:\n                instrcount += 1\n", "            if card.instruction:\n                instrcount += card.instruction in instrtab or card.column8 != '*'\n")],
    """
with Scratch() as s:
    s.file("a.src", card(col8="*", op="FOO"), card(op="TX"))
    out = s.tool("check-instructions", "-c", "a.src").stdout
    assert "Total         2" in out, out
""", "an excluded card with an unknown instruction", "the card is not counted")

bug("f37-upper", "C37", "tools/find-symbols.py",
    [("    symbol = args[0]\n", "    symbol = args[0].upper()\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="AB", op="TX"))
    assert s.tool("find-symbols", "-b", "a", "a.src").stdout == ""
""", "a search text in lower case", "upper-case symbols are found")

bug("f37-blank", "C37", "tools/find-symbols.py",
    [("    symbol = args[0]\n", "    symbol = args[0].split(',')[-1]\n")],
    """
with Scratch() as s:
    s.file("a.src", card(label="AB", op="TX"))
    assert s.tool("find-symbols", "-b", "Q,A", "a.src").stdout == ""
""", "a search text with a comma", "only what follows the comma is looked for")

bug("f38-half", "C38", M,
    [("            text += \"0o%016o \" % self._data[addr].value\n", "            text += \"0o%08o%08o \" % divmod(self._data[addr].value, 8 ** 8) \\\n                if self._data[addr].value > 8 ** 8 else \\\n                \"0o%016o \" % (self._data[addr].value % 8 ** 8)\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[5] = 8 ** 8
assert repr(m).split()[5] == "0o" + "%016o" % 8 ** 8
""", "a word that holds exactly 8**8", "it prints as zero")

bug("f40-genpages-dir", "C40", "tools/genpages.py",
    [("    if not os.path.exists(filename):\n        parser.error(\"Filename %s does not exist!\" % filename)\n        sys.exit(1)\n", "    if not os.path.exists(filename):\n        print(\"Filename %s does not exist!\" % filename, file=sys.stderr)\n        sys.exit(0)\n")],
    """
with Scratch() as s:
    assert s.tool("genpages", "nothere.src").returncode != 0
""", "the page generator on a missing source", "exit status 0")

bug("f41-order", "C41", IS,
    [("    for opval in sorted(opmap):\n", "    for opval in sorted(opmap, key=lambda v: (v >> 11, v & 0o37, v)):\n")],
    """
import io, contextlib
from h800.instructions import print_instructions
o = io.StringIO()
with contextlib.redirect_stdout(o):
    print_instructions()
v = [int(x.split()[0], 8) for x in o.getvalue().splitlines()]
assert v == sorted(v)
""", "running the listing", "codes out of order")

bug("f41-pra", "C41", IS,
    [("            if mnemonic == \"PRD\":\n", "            if mnemonic != \"PRD\":\n")],
    """
import io, contextlib
from h800.instructions import print_instructions
o = io.StringIO()
with contextlib.redirect_stdout(o):
    print_instructions()
assert " PRD" in o.getvalue()
""", "running the listing", "the print codes appear under another mnemonic")
