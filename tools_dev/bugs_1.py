BUGS = []
def bug(id, prop, file, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo,
                     needs=needs, breaks=breaks))

BF = "h800/bitfield.py"
bug("b01-index-past-end", "C01", BF,
    [("if rindex < 0 or rindex >= self._width:", "if rindex < 0 or rindex > self._width:")],
    """
from h800.bitfield import BitField as B
for n in range(4):
    for o in range(2):
        f = B(5, 8, n, o)
        for i in (-1, 9, 10) + ((0,) if n in (1, 3) else (8,)):
            assert raises(f.__getitem__, i), (n, o, i)
""", "an index exactly one past the end of the field", "reading or writing a bit the field does not have is accepted")

bug("b02-wide-range-mask", "C02", BF,
    [("        bitmask = (2 ** width - 1) << shift\n", "        bitmask = ((2 ** width - 1) & 0xffffffffffff) << shift\n")],
    """
from h800.bitfield import BitField as B
f = B(2 ** 60 - 1, 60, B.BIT_SCHEME_MSB_1, B.BIT_ORDER_MSB_LEFT)
assert f[2:55] == 2 ** 54 - 1
""", "a range of more than 48 bits in a field wider than a machine word", "range reads drop the high bits of very wide ranges")

bug("b03-one-bit-range-write", "C03", BF,
    [("            newvalue = (self._value & (self.maxval - bitmask)) | \\\n                (value << shift)\n",
      "            if width == 1:\n                newvalue = self._value | (value << shift)\n            else:\n                newvalue = (self._value & (self.maxval - bitmask)) | \\\n                    (value << shift)\n")],
    """
from h800.bitfield import BitField as B
f = B(255, 8, B.BIT_SCHEME_MSB_1, B.BIT_ORDER_MSB_LEFT)
f[3:3] = 0
assert f.value == 223
""", "writing 0 through a one-bit range over a set bit", "the bit is not cleared")

bug("b04-assign-before-check", "C04", BF,
    [("        self._checkValue(value)\n        self._value = int(value)\n", "        self._value = int(value)\n        self._checkValue(value)\n")],
    """
from h800.bitfield import BitField as B
f = B(5, 8)
assert raises(setattr, f, "value", 256)
assert f.value == 5
""", "a rejected whole-value assignment followed by a read", "the field keeps the out-of-range value")

bug("b05-isbit-truth", "C05", BF,
    [("        return not self.isBitSet(index)\n", "        return not self._value & (1 << index)\n")],
    """
from h800.bitfield import BitField as B
f = B(0b0110, 4, B.BIT_SCHEME_MSB_1, B.BIT_ORDER_MSB_LEFT)
assert [f.isBitClr(i) for i in (1, 2, 3, 4)] == [True, False, False, True]
f = B(1, 4, B.BIT_SCHEME_MSB_0, B.BIT_ORDER_MSB_LEFT)
assert not f.isBitClr(3) and f.isBitClr(0)
""", "a layout other than LSB=0", "isBitClr ignores the numbering scheme")

bug("b06-lsb-left-msb1-indices", "C06", BF,
    [("            elif self._numbering == self.BIT_SCHEME_MSB_0:\n                return width - (index + 1)\n            elif self._numbering == self.BIT_SCHEME_MSB_1:\n                return width - index\n\n    def _shift",
      "            elif self._numbering == self.BIT_SCHEME_MSB_0:\n                return width - (index + 1)\n            elif self._numbering == self.BIT_SCHEME_MSB_1:\n                return width - (index % (width - 1) if width > 1 else 0)\n\n    def _shift")],
    """
from h800.bitfield import BitField as B
f = B(0, 5, B.BIT_SCHEME_MSB_1, B.BIT_ORDER_LSB_LEFT)
assert f.indices == [5, 4, 3, 2, 1] and f.msb == 1
""", "the LSB-left, MSB=1 layout, last index", "the reported bit numbers repeat one bit and omit another")

W = "h800/word.py"
bug("b07-word-assign-range", "C07", W,
    [("    def value(self, value):\n        if value < 0 or value > (2 ** 48 - 1):\n            raise ValueError(\"Invalid value for 48-bit word!\")\n        self.data.value = value\n",
      "    def value(self, value):\n        if value < -(2 ** 47) or value > (2 ** 48 - 1):\n            raise ValueError(\"Invalid value for 48-bit word!\")\n        self.data.value = value & (2 ** 48 - 1)\n")],
    """
from h800.word import Word
w = Word(7)
assert raises(setattr, w, "value", -1) and w.value == 7
""", "assigning a small negative value", "negative values wrap around instead of being rejected")

bug("b08-group-b-boundary", "C08", W,
    [("        self._b = self.data[25:36] = value\n", "        self._b = self.data[25:36] = value\n        self._c = self.data[37:48] = self._c\n")],
    """
from h800.word import InstructionWord
w = InstructionWord(1, 2, 3, 4)
w.value = 0o1111222233334444
w.b = 5
assert w.c == 0o4444 and w.b == 5
""", "the whole word is assigned first, then group B", "assigning B restores a stale C")

I = "h800/instruction.py"
IS = "h800/instructions.py"
bug("b09-scientific-a-bit", "C09", I,
    [("        if b is not None:\n            # print(\"*** b: %d\" % 1 if self._b else 0)\n            self.data[5] = 1 if self._b else 0\n",
      "        if self._a is not None and b is not None:\n            self.data[4:5] = 2 * self._a + 1 if self._b else self._a\n")],
    """
from h800 import instructions as I
for a in (0, 1):
    for b in (0, 1):
        for c in (0, 1):
            x = I.BinaryMultiply(sequence=1, a=a, b=b, c=c)
            assert x.value == 0o4013 + 0o400 * a + 0o200 * b + 0o100 * c
""", "A active with B inactive", "the A/B activity bits are placed wrongly")

bug("b10-mask-with-c", "C10", I,
    [("            if self._a is not None or self._b is not None or \\\n                    self._c is not None or self._paddr is not None:\n",
      "            if self._a is not None or self._b is not None or \\\n                    self._c or self._paddr is not None:\n")],
    """
from h800 import instructions as I
assert raises(lambda: I.Transfer(sequence=0, mask=3, c=0))
""", "a mask together with an inactive (0) C operand only", "the combination is accepted")

bug("b11-generator-print", "C11", IS,
    [("    return ((0o4000 * sequence) + (0o400 * a) + (0o200 * b) + (0o100 * c) +\n            (0o40 * o.b7) + o.op)",
      "    return ((0o4000 * sequence) | (0o400 * a) | (0o200 * b) | (0o40 * c) |\n            (0o40 * o.b7) | o.op)")],
    """
from h800 import instructions as I
assert I.make_print_opcode("PRA", 0, 0, 0, 1) == 0o146
""", "a print opcode with C active", "the generator loses the C bit")

bug("b12-simulator-code", "C12", IS,
    [("    \"FCON\": Opcode(\"FCON\", \"FloatingToFixedConvert\",\n                   0b00, 0b0, 0o35),", "    \"FCON\": Opcode(\"FCON\", \"FloatingToFixedConvert\",\n                   0b10, 0b0, 0o35),")],
    """
from h800 import instructions as I
a = {I.make_unmasked_opcode("WD", s, x, y, z) for s in (0, 1) for x in (0, 1) for y in (0, 1) for z in (0, 1)}
b = {I.make_unmasked_opcode("FCON", s, x, y, z) for s in (0, 1) for x in (0, 1) for y in (0, 1) for z in (0, 1)}
assert not a & b
""", "the unmasked form of a maskable instruction", "FCON and unmasked WD share command codes")
M = "h800/memory.py"
bug("b13-slice-store-first-only", "C13", M,
    [("            for i in range(key.start, key.stop):\n                self._data[i].value = value\n",
      "            word = Word(value)\n            for i in range(key.start, key.stop):\n                self._data[i] = word\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[10:14] = 5
m[11] = 6
assert m[10:14] == [5, 6, 5, 5]
""", "a range store followed by a store to one address of the range", "all addresses of the range become the same word")

bug("b14-no-partial", "C14", M,
    [("        else:\n            self._data[key].value = value\n", "        else:\n            word = self._data[key]\n            word.data[1:24], word.data[25:48] = divmod(value, 2 ** 24)\n")],
    """
from h800.memory import MemoryBank
m = MemoryBank()
m[3] = 2 ** 48 - 1
for v in (-1, 2 ** 48):
    assert raises(m.__setitem__, 3, v)
    assert m[3] == 2 ** 48 - 1
m[4] = 1
assert raises(m.__setitem__, 4, 2 ** 49 + 5) and m[4] == 1
m[5] = 7
assert raises(m.__setitem__, 5, 1.5) or True
""", "n/a", "n/a")

bug("b15-shared-bank", "C15", M,
    [("class ExpansionMemoryModule:\n    \"\"\"H-1800 expansion memory module class.\"\"\"\n\n    NUM_BANKS = 8\n\n    def __init__(self):\n        self._data = {}\n        for b in range(self.NUM_BANKS):\n            self._data[b] = MemoryBank()\n",
      "class ExpansionMemoryModule:\n    \"\"\"H-1800 expansion memory module class.\"\"\"\n\n    NUM_BANKS = 8\n\n    def __init__(self):\n        self._data = {}\n        banks = {n: MemoryBank() for n in range(4)}\n        for b in range(self.NUM_BANKS):\n            self._data[b] = banks[b & 3]\n")],
    """
from h800.memory import ExpansionMemoryModule
m = ExpansionMemoryModule()
m[1][7] = 9
assert m[5][7] == 0
""", "different values in banks n and n+4 of an expansion module", "upper banks alias the lower ones")
R = "h800/registers.py"
bug("b16-register-reject-24", "C16", R,
    [("        if value < 0 or value > (2 ** self._width - 1):\n            raise ValueError(\"Invalid value for %d-bit register!\" %\n                             self._width)\n        self._data[1:self._width] = value\n",
      "        if value < 0 or value > (2 ** 24 - 1):\n            raise ValueError(\"Invalid value for %d-bit register!\" %\n                             self._width)\n        self._data[1:self._width] = value & (2 ** self._width - 1)\n")],
    """
from h800.registers import Register
r = Register(3, width=16)
assert raises(setattr, r, "value", 2 ** 16) and r.value == 3
""", "assigning a 17..24-bit value to a 16-bit register", "the value is truncated instead of rejected")

bug("b17-alias-name", "C17", R,
    [("    if name in ALIASES:\n        return ALIASES[name]\n    raise ValueError(\"Invalid register name %s!\" % name)",
      "    for alias in ALIASES:\n        if alias.endswith(name):\n            return ALIASES[alias]\n    raise ValueError(\"Invalid register name %s!\" % name)")],
    """
from h800.registers import registerNumber
assert registerNumber("DWAC") == 31
assert raises(registerNumber, "AC") and raises(registerNumber, "")
""", "a name that is the tail of an alias", "unknown names are accepted")

bug("b18-group-clear-width", "C18", R,
    [("    def clear(self):\n        self._data.clear()\n\n\nclass RegisterGroup", "    def clear(self):\n        self._data[1:16] = 0\n\n\nclass RegisterGroup")],
    """
from h800.registers import Registers
r = Registers(width=24)
r[3]["X1"].value = 5
r.clear()
assert r[3]["X1"].value == 0
""", "a 24-bit register with one of its low 8 bits set", "clearing leaves the low bits")

bug("b19-group-iter-order", "C19", R,
    [("        for regname in REGISTERS:\n            self._registers[REGISTERS[regname]] = \\\n                Register(name=regname, width=width)\n",
      "        for regname in sorted(REGISTERS):\n            self._registers[REGISTERS[regname]] = \\\n                Register(name=regname, width=width)\n")],
    """
from h800.registers import RegisterGroup
g = RegisterGroup()
assert [r.name for r in g] == [g[i].name for i in range(32)]
""", "comparing the order of iteration with register numbers", "iteration is in name order")

PC = "h800/punchcard.py"
AC = "h800/arguscard.py"
bug("b20-last-field-width", "C20", PC,
    [("                    fwidth = width - col + 1\n", "                    fwidth = width - col\n")],
    """
from h800.punchcard import PunchCard
t = "".join(chr(65 + i % 26) for i in range(120))
assert "".join(PunchCard(t).fields) == t
""", "a card using its last column", "column 120 is lost")

bug("b21-strip-blank-only", "C21", PC,
    [("                if field.strip() == \"\":\n", "                if field.strip(' ') == \"\":\n")],
    """
from h800.punchcard import PunchCard
c = PunchCard("A" + "\\t" * 7)
assert c.strippedFields[1] is None and c.record["lognum"] is None
""", "a field consisting of tabs", "a blank field is reported as an empty string")

bug("b22-instruction-rsplit", "C22", AC,
    [("                self._record[\"operation\"].split(',')[0].strip()\n", "                self._record[\"operation\"].rsplit(',', 1)[0].strip()\n")],
    """
from h800.arguscard import Card
assert Card(card(op="TX,A,B")).instruction == "TX"
""", "an operation with two commas", "the mnemonic includes the first argument")

bug("b23-log-section-last", "C23", AC,
    [("                self._logSectionCol8 = card.record[\"column8\"]\n                break\n", "                self._logSectionCol8 = card.record[\"column8\"]\n                if self._logSection:\n                    break\n")],
    """
from h800.arguscard import Deck
d = Deck(lines=["L      *", "L      @SECTION TWO"])
assert d.log_section == "" and d.log_section_col8 == "*"
""", "a first L card with blank text and a second one", "the second L card is reported")

bug("b24-include-linenum", "C24", PC,
    [("                    icards = self._readSource(incname)\n                    cards.extend(icards)\n", "                    icards = self._readSource(incname)\n                    cards[i:i] = icards\n")],
    """
from h800.punchcard import Deck
with Scratch() as s:
    s.file("inc", "X", "Y")
    s.file("main", "# comment", "A", "$inc", "B", "$inc", "C")
    d = Deck(file="main")
    assert [c.line for c in d.cards] == list("AXYBXYC")
    s.file("main", "A", "$inc", "B", "$inc", "C")
    assert [c.line for c in Deck(file="main").cards] == list("AXYBXYC")
""", "a second include after another include", "included cards are inserted at the wrong place")
ST = "h800/symbol_table.py"
bug("b25-setloc-blank", "C25", ST,
    [("                subseg = command.split(',')[1].strip()\n", "                subseg = command.split(',')[1]\n")],
    """
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("f.src", card(op="SETLOC, A"), card(label="X", op="TX"))
    t, e = buildSymbolTable("f.src", {})
    assert list(t["X"]["f"]) == ["A"]
""", "a SETLOC with a blank after its comma", "the subsegment name keeps the blank")

bug("b26-equals-two-operands", "C26", ST,
    [("                            if card.addressa == prevcard.addressa and \\\n                                    card.addressb == prevcard.addressb \\\n                                    and card.addressc == prevcard.addressc:\n",
      "                            if card.addressa == prevcard.addressa and \\\n                                    card.addressb == prevcard.addressb:\n")],
    """
import contextlib, io
from h800.symbol_table import buildSymbolTable
with Scratch() as s:
    s.file("f.src", card(label="X", op="EQUALS", a="1", c="2"), card(label="X", op="EQUALS", a="1", c="3"))
    t, e = buildSymbolTable("f.src", {})
    assert e == 1
""", "two EQUALS that differ in the third operand only", "the conflicting definition is accepted silently")

bug("b27-suffix-substring", "C27", ST,
    [("                if end and sym.endswith(name):\n", "                if end and sym.rpartition(name)[1] and sym[-1] == name[-1]:\n")],
    """
from h800.symbol_table import findSymbolDef
d = {"f": {"1": {"simple": {}}}}
assert findSymbolDef({"ABXB": d, "AB": d}, "AB", end=True) == ["AB"]
""", "a symbol that contains the text and ends in its last character", "suffix search returns symbols that do not end with the text")

bug("b28-update-undef", "C28", ST,
    [("                if value is None:\n                    self._undefs.append(name)\n", "                if not value:\n                    self._undefs.append(name)\n")],
    """
from h800.symbol_table import SymbolTable
t = SymbolTable()
t.add("A", "f", 1, value=0, symtype="absolute")
assert t.undefines == [] and t.getNumUndefs() == 0
""", "a symbol defined with value 0", "it is listed as undefined")

bug("b29-genlines-width", "C29", "tools/genlines.py",
    [("    numdigits = len(str(end))\n", "    numdigits = len(str(start))\n")],
    """
with Scratch() as s:
    r = s.tool("genlines", "9999", "10000")
    assert r.stdout.splitlines() == [" 09999  ", " 10000  "], r.stdout
""", "n/a", "the width follows the start number")

bug("b30-check-star", "C30", "tools/check-instructions.py",
    [("                if card.record[\"column8\"] == '*':\n", "                if card.record[\"column8\"] == '*' and not opts.invalid:\n")],
    """
with Scratch() as s:
    s.file("f.src", card(col8="*", op="FOO"), card(op="BAR"))
    r = s.tool("check-instructions", "-a", "f.src")
    assert "1 error encountered." in r.stdout
""", "a card with * in column 8 and the -a or -i option", "excluded cards are reported")

bug("b31-charset", "C31", "h800/charset.py",
    [("    58: '@',\n", "    58: ',',\n")],
    """
from h800.charset import CHARSET
v = [x for x in CHARSET.values() if x and x.strip()]
assert len(v) == len(set(v))
""", "looking at code 58", "two codes share a character")
