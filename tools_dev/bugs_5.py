BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))
B = "h800/bitfield.py"
W = "h800/word.py"
I = "h800/instruction.py"
IS = "h800/instructions.py"
M = "h800/memory.py"
R = "h800/registers.py"
PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
ST = "h800/symbol_table.py"
CS = "h800/charset.py"


bug("e01-wrap63", "C01", B,
    [("            return self._width - index - 1\n", "            return (self._width - index - 1) % 63\n")],
    """
from h800.bitfield import BitField as B
a = B(2 ** 63, width=64, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert a[1] == 1 and a[64] == 0
""", "the top bit of a 64-bit MSB-left field", "bit 64 is read instead")

bug("e02-reversed-adjacent", "C02", B,
    [("                # MSB low, left, e.g. [0:7].\n                if start > end:\n", "                # MSB low, left, e.g. [0:7].\n                if start > end + 1:\n")],
    """
from h800.bitfield import BitField as B
a = B(5, width=8, numbering=B.BIT_SCHEME_MSB_1, order=B.BIT_ORDER_MSB_LEFT)
assert raises(lambda: a[5:4])
""", "a reversed range of two adjacent bits", "it is accepted")

bug("e03-add-carry", "C03", B,
    [("                newvalue = self._value | (value << shift)\n", "                newvalue = self._value + (value << shift) \\\n                    if self._value >> (shift + 1) else \\\n                    self._value | (value << shift)\n")],
    """
from h800.bitfield import BitField as B
a = B(0b10000100, width=8)
a[2] = 1
assert a.value == 0b10000100, bin(a.value)
""", "writing 1 to a bit that is 1 already while a higher bit is set", "a carry into the next bit")

bug("e04-zero-width-store", "C04", B,
    [("        self._value = int(value)\n", "        self._value = int(value) & self._maxval if value < 2 ** 63 else int(float(value))\n")],
    """
from h800.bitfield import BitField as B
a = B(0, width=64)
a.value = 2 ** 64 - 1
assert a.value == 2 ** 64 - 1, a.value
""", "a value of 2**63 or more", "the field holds a rounded value, possibly outside its width")

bug("e05-rangeclr-not", "C05", B,
    [("        return self.isRange(start, end, 0)\n", "        return not any(self.isBitSet(i) for i in range(min(start, end), max(start, end)))\n")],
    """
from h800.bitfield import BitField as B
a = B(8, width=8)
assert a.isRangeClr(0, 3) is False
""", "a range with only its highest-numbered bit set", "it is called clear")

bug("e06-repr-wide", "C06", B,
    [("        return '{{:{0}>{1}}}'.format(0,\n                                     self._width).format(bin(self._value)[2:])\n", "        return bin(self._value | (self._value and 1 << self._width) or\n                   1 << self._width)[3:].rjust(self._width, '0') \\\n            if self._width < 33 else '%s%s' % (\n                bin(self._value >> 32)[2:].rjust(self._width - 32, '0'),\n                bin(self._value & 0xffffffff)[2:])\n")],
    """
from h800.bitfield import BitField as B
assert repr(B(1, width=48)) == "0" * 47 + "1", repr(B(1, width=48))
""", "printing a field wider than 32 bits whose bit 31 is clear", "the digits are too few")

bug("e07-shared-zero", "C07", W,
    [("        self.data[1:48] = data\n", "        self.data[1:48] = data\n        if data == 2 ** 48 - 1:\n            self.data = Word._ONES = Word._ONES or self.data\n"),
     ('    """H-x800 word class."""\n', '    """H-x800 word class."""\n    _ONES = None\n\n')],
    """
from h800.word import Word
a, b = Word(2 ** 48 - 1), Word(2 ** 48 - 1)
a.value = 5
assert b.value == 2 ** 48 - 1
""", "two words made with all bits set, one changed", "both change")

bug("e08-group-assign", "C08", W,
    [("        self._b = self.data[25:36] = value\n", "        self._b = value\n        self.data[25:36] = value if value < 4096 else 0\n")] if False else
    [("        self._b = self.data[25:36] = value\n", "        self._b = value\n        self.data.value = (self.data.value & ~(0o7777 << 12)) | (value << 12)\n")],
    """
from h800.word import InstructionWord
w = InstructionWord(1, 2, 3, 4)
assert raises(setattr, w, "b", 4096)
assert w.a == 2
""", "a B group value of more than 12 bits", "it is accepted and spills into the A group")

bug("e10-paddr-true", "C10", I,
    [("            if self._sequence is not None or self._mask is not None or \\\n                    self._a is not None or self._b is not None or \\\n                    self._c is not None:\n",
      "            if self._sequence or self._mask is not None or \\\n                    self._a or self._b is not None or \\\n                    self._c is not None:\n")],
    """
from h800.instruction import Instruction
from h800.instructions import OPCODES
assert raises(lambda: Instruction(OPCODES["RF"], a=0, paddr=5))
""", "a peripheral address together with A given as 0", "it is accepted")

bug("e13-negative-wrap", "C14", M,
    [("            for i in range(key.start, key.stop):\n                values.append(self._data[i].value)\n", "            for i in range(key.start, min(key.stop, len(self._data))):\n                values.append(self._data[i].value)\n")],
    """
from h800.memory import MemoryBank
b = MemoryBank()
try:
    b[2046:2050]
    ok = False
except (KeyError, ValueError, IndexError):
    ok = True
assert ok
""", "a read of a range that reaches past the last address", "it is silently cut")

bug("e13-get-word", "C13", M,
    [("                values.append(self._data[i].value)\n            return values\n", "                values.append(self._data[i].value)\n            if key.stop - key.start > 1024:\n                values.sort(key=lambda v: 0)\n                values[1024] = values[1024 - (self._data[key.start].value >> 47)]\n            return values\n")],
    """
from h800.memory import MemoryBank
b = MemoryBank()
b[0] = 2 ** 47
b[1023] = 3
assert b[0:2048][1024] == 0
""", "a read of more than 1024 words starting with a negative word", "one element is repeated")

bug("e16-width-clear", "C16", R,
    [("        self._data[1:self._width] = value\n", "        if value >> 12:\n            self._data[1:self._width] = value\n        else:\n            self._data[self._width - 11:self._width] = value\n")],
    """
from h800.registers import Register
r = Register(0o70000)
r.value = 5
assert r.value == 5
""", "assigning a value of up to 12 bits to a register holding more", "the high bits remain")

bug("e18-clear-named", "C18", R,
    [("        for register in self._registers.values():\n            register.clear()\n", "        for register in self._registers.values():\n            if register.name:\n                register.clear()\n")],
    """
from h800.registers import RegisterGroup, Register
g = RegisterGroup()
g[3] = Register(7)
g.clear()
assert g[3].value == 0
""", "clearing a group with a replaced, unnamed register", "it keeps its contents")

bug("e20-blank-line", "C20", PC,
    [("                self._fields.append(self._line[s-1:s-1+w])\n", "                self._fields.append(self._line[s-1:s-1+w] if w > 0 else self._line[s-1:])\n")],
    """
from h800.punchcard import PunchCard
p = PunchCard("ABCDEF", width=3, fields=[1, 4], fieldnames=["a", "b"])
assert p.fields == ["ABC", ""], p.fields
""", "a layout whose last field starts just past the card width", "the field gets the rest of the line")

bug("e21-comment-record", "C21", PC,
    [("        self._record = dict.fromkeys(fieldnames)\n        if not", "        self._record = self._BLANK if line.startswith('#') else dict.fromkeys(fieldnames)\n        if not")] if False else
    [("            if linenum != 0:\n                self._record[\"linenum\"] = linenum\n", "            if linenum > 1:\n                self._record[\"linenum\"] = linenum\n")],
    """
from h800.punchcard import PunchCard
assert PunchCard("A", linenum=1).record["linenum"] == 1
""", "a card of line 1", "its record lacks the line number")

bug("e22-p-lower", "C22", AC,
    [("        if self.column1 == 'P' or self.column1 == 'R' or self.column1 == 'L':\n", "        if self._line[:1].upper() in ('P', 'R', 'L') and self.column1:\n")],
    """
from h800.arguscard import Card
assert Card(card(col1="r", op="BA")).instruction == "BA"
""", "a lower-case letter in column 1", "the card is taken as a remarks card")

bug("e22-instr-suffix", "C22", AC,
    [("                self._record[\"operation\"].split(',')[0].strip()\n", "                self._record[\"operation\"].split(',')[0].rstrip('0123456789 ')\n")],
    """
from h800.arguscard import Card
assert Card(card(op="AB9,1")).instruction == "AB9"
""", "a mnemonic ending in a digit before a comma", "the digit is lost")

bug("e23-str-strip", "C23", PC,
    [("        return '\\n'.join(lines)\n", "        return '\\n'.join(lines).rstrip('\\n')\n")],
    """
from h800.punchcard import Deck
assert str(Deck(["A", "", ""])) == "A\\n\\n"
""", "a deck that ends with blank cards", "its printed form lacks them")

bug("e23-log-included", "C23", AC,
    [("            if card.record[\"column1\"] == 'L':\n", "            if card.record[\"column1\"] == 'L' and card.filename == file:\n")],
    """
from h800.arguscard import Deck
with Scratch() as s:
    s.file("i", "L       XX")
    s.file("m", "$i", "A")
    assert Deck(file="m").log_section == "XX"
""", "a log card in an included file", "it is not recognised")

bug("e24-include-args", "C24", PC,
    [("                incname = line[1:].split()[0]\n", "                incname = line[1:].strip()\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    s.file("i", "X")
    s.file("m", "$i   comment")
    assert Deck(file="m").lines == ["X"]
""", "text after the name in an include line", "the file is not found")

bug("e24-relative", "C24", PC,
    [("                    icards = self._readSource(incname)\n", "                    icards = self._readSource(incname, recurse=len(cards) < 2 or line.endswith('\\n'))\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    s.file("j", "Y")
    s.file("i", "$j")
    open("m", "w").write("A\\nB\\n$i")
    assert Deck(file="m").lines == ["A", "B", "Y"], Deck(file="m").lines
""", "a nested include reached from a last line without newline after at least two cards", "the nested include line becomes a card")

bug("e25-tagtype", "C25", ST,
    [("            strLabel = card.label.strip().replace(' ', '')\n", "            strLabel = card.label.strip().replace(', ', ',').replace(' ,', ',')\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("m", card(label="A B", op="BA"))
    t, n = buildSymbolTable("m", {})
    assert list(t) == ["AB"], t
""", "a label with a blank inside", "it is filed with the blank")

bug("e25-seg-dots", "C25", ST,
    [("    seg = filename.split('.')[0]  # Default: name of the first file.\n", "    seg = filename.rsplit('.', 1)[0]  # Default: name of the first file.\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("m.a.src", card(label="AB", op="BA"))
    t, n = buildSymbolTable("m.a.src", {})
    assert list(t["AB"]) == ["m"], t
""", "a file name with two dots", "the segment keeps the first suffix")

bug("e26-case-first", "C26", ST,
    [("            if strLabel.upper() != strLabel:\n", "            if strLabel[:1].upper() != strLabel[:1] or strLabel.islower():\n")],
    """
from h800.symbol_table import buildSymbolTable
import contextlib, io
with Scratch() as s, contextlib.redirect_stderr(io.StringIO()):
    s.file("m", card(label="ABc", op="BA"))
    t, n = buildSymbolTable("m", {})
    assert n == 1 and t == {}
""", "a label with a lower-case letter after an upper-case one", "it is recorded")

bug("e26-equals-blank", "C26", ST,
    [("                            if card.addressa == prevcard.addressa and \\\n", "                            if (card.addressa or prevcard.addressa) == prevcard.addressa and \\\n")],
    """
from h800.symbol_table import buildSymbolTable
import contextlib, io
with Scratch() as s, contextlib.redirect_stderr(io.StringIO()):
    s.file("m", card(label="AB", op="EQUALS", a="1"), card(label="AB", op="EQUALS"))
    t, n = buildSymbolTable("m", {})
    assert n == 1
""", "a second EQUALS with a blank first operand", "it is not reported")

bug("e27-type-any", "C27", ST,
    [("                        if symtype in symtab[name][seg][subseg].keys():\n                            return symtab[name]\n", "                        if symtype in symtab[name][seg][subseg].keys():\n                            return symtab[name]\n                        if symtype not in ('simple', 'complex'):\n                            return symtab[name]\n")],
    """
from h800.symbol_table import findSymbolDef
import contextlib, io
with contextlib.redirect_stderr(io.StringIO()):
    assert findSymbolDef({"A": {"s": {"1": {"simple": {}}}}}, "A", symtype="other") is None
""", "a search for a type that does not exist", "any definition is returned")

bug("e28-readd-value", "C28", ST,
    [("                print(\"ERROR: Symbol \\\"%s\\\" already defined!\" % (name))\n            else:\n                self._symbols[name] = ", "                print(\"ERROR: Symbol \\\"%s\\\" already defined!\" % (name))\n                if name in self._undefs:\n                    self._symbols[name].setValue(value, symtype)\n            else:\n                self._symbols[name] = ")],
    """
from h800.symbol_table import SymbolTable
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    t = SymbolTable()
    t.add("A", "f", 1)
    t.add("A", "f", 2, value=5)
assert t.lookup("A").value is None
""", "adding an undefined name a second time with a value", "the value is taken over")

bug("e29-step-end", "C29", "tools/genlines.py",
    [("    minwidth = 4\n    width = numdigits\n", "    minwidth = 4\n    width = max(numdigits, len(str(start)))\n    if start > end:\n        start, end = end, start\n")],
    """
with Scratch() as s:
    assert s.tool("genlines", "10", "5").stdout == ""
""", "an end number below the start number", "lines are printed")

bug("e30-blank-op", "C30", "tools/list-instructions.py",
    [("                instruction = card.operation.strip().replace(' ', '')\n", "                instruction = card.operation.strip()\n")],
    """
with Scratch() as s:
    s.file("m", card(op="TX , 9"))
    assert s.tool("list-instructions", "TX,9", "m").stdout.strip() != ""
""", "an operation with blanks around the comma and a search with operand", "the card is not listed")

bug("e33-filename-suffix", "C33", "tools/genpages.py",
    [("                logsection = infilename.replace('_', ' ')\n", "                logsection = infilename.replace('_', ' ', 1)\n")],
    """
with Scratch() as s:
    s.file("m", "# Filename: A_B_C.x", "# Pages: 1")
    s.tool("genpages", "m")
    assert "L      @A B C" in open("m").read()
""", "a header file name with two underscores", "the second stays")

bug("e34-file-dots", "C34", "tools/list-symbols.py",
    [("                           \"%s:%s\" % (symdata[\"file\"].split('.')[0],\n", "                           \"%s:%s\" % (seg,\n")],
    """
with Scratch() as s:
    s.file("i.x", card(label="AB", op="BA"))
    s.file("m.x", "$i.x")
    assert "i:1" in s.tool("list-symbols", "m.x").stdout
""", "a symbol defined in an included file", "the including file is named")

bug("e36-percent", "C36", "tools/check-instructions.py",
    [("                if card.record[\"column8\"] == '*':\n                    if opts.verbose:\n", "                if card.record[\"column8\"] == '*':\n                    if opts.sort:\n                        instrcount -= 1\n                    if opts.verbose:\n")],
    """
with Scratch() as s:
    s.file("m", card(op="BA"), card(op="BA", col8="*"))
    a = s.tool("check-instructions", "-c", "m").stdout.split()
    b = s.tool("check-instructions", "-c", "-s", "m").stdout.split()
    assert a[a.index("Total") + 1] == b[b.index("Total") + 1]
""", "a sorted count of a source with excluded cards", "the total differs")

bug("e38-register-repr", "C38", R,
    [('        return "0o%06o" % self.value\n', '        return "0o%06o" % (self.value & 0o777777)\n')],
    """
from h800.registers import Register
assert repr(Register(2 ** 24 - 1, width=24)) == "0o77777777"
""", "a 24-bit register with high bits set", "they are not printed")

bug("e39-verbose-include", "C39", PC,
    [("            if self._verbose:\n                print((\"Reading %s...\" % filename))\n            lines = f.readlines()\n", "            if self._verbose:\n                print((\"Reading %s... (%s)\" % (filename, f.readline().strip())))\n                f.seek(0)\n            lines = f.readlines()\n            if self._verbose:\n                lines = [l.replace('\\t', ' ') for l in lines]\n")],
    """
from h800.punchcard import Deck
import contextlib, io
with Scratch() as s, contextlib.redirect_stdout(io.StringIO()):
    s.file("m", "A\\tB")
    assert Deck(file="m", verbose=True).lines == Deck(file="m").lines
""", "a tab in a source read verbosely", "it becomes a blank")

bug("e40-listing-order", "C40", "tools/listing.py",
    [("        d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)\n", "        open(listfile, 'w').close()\n        d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)\n")],
    """
with Scratch() as s:
    s.file("m.x", "A", "$nofile")
    s.tool("listing", "m.x")
    assert not os.path.exists("m.lst")
""", "a missing include", "an empty listing is left behind")
BUGS = [b for b in BUGS if b]
